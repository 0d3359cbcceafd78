property: J04
needs: two consecutive diagnostics with the same message, such as two unreachable instructions
breaks: of consecutive diagnostics with the same message only the first is served
@@ lsp/lsp.go
<<<<
	for _, d := range res.Diagnostics {
		sev := int(d.Severity())
====
	for i, d := range res.Diagnostics {
		if i > 0 && res.Diagnostics[i-1].String() == d.String() {
			continue
		}
		sev := int(d.Severity())
>>>>
@@ demo
func main() {
	text := "err\nint 1\nint 2\n"
	n := len(teal.Process(text).Diagnostics)
	r := ask(text, "textDocument/diagnostic", doc("u")).(M)
	must(len(r["items"].([]any)) == n, "%d of %d diagnostics", len(r["items"].([]any)), n)
}
