property: S01
needs: a multi-way branch naming the same label twice in a row
breaks: the reference count of the label misses repeated operands
@@ process.go
<<<<
		for _, lbl := range op.Labels() {
			c.refc[lbl.Name]++
		}
====
		prev := ""
		for _, lbl := range op.Labels() {
			if lbl.Name != prev {
				c.refc[lbl.Name]++
			}
			prev = lbl.Name
		}
>>>>
@@ demo
func main() {
	r := teal.Process(src("#pragma version 8", "int 0", "switch a b a", "a:", "b:"))
	must(r.RefCounts["a"] == 2 && r.RefCounts["b"] == 1, "%v", r.RefCounts)
	r = teal.Process(src("#pragma version 8", "int 0", "switch a a b", "a:", "b:"))
	must(r.RefCounts["a"] == 2 && r.RefCounts["b"] == 1, "%v", r.RefCounts)
}
