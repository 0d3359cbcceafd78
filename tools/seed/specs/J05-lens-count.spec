property: J05
needs: a multi-way branch that names the same label twice
breaks: the reference counter counts instructions instead of references
@@ process.go
<<<<
		for _, lbl := range op.Labels() {
			c.refc[lbl.Name]++
		}
====
		last := ""
		for _, lbl := range op.Labels() {
			if last != lbl.Name {
				c.refc[lbl.Name]++
			}
			last = lbl.Name
		}
>>>>
@@ demo
func main() {
	r := ask("#pragma version 8\nint 1\nswitch a a\na:\n", "textDocument/codeLens", doc("u")).([]any)
	must(r[0].(M)["command"].(M)["title"] == "refs: 2", "%v", r)
}
