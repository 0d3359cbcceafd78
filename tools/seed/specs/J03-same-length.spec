property: J03
needs: a change to a text of the same length after the document was analysed
breaks: the old analysis is kept when the new text has the length of the old one
@@ lsp/lsp.go
<<<<
func (d *lspDoc) Update(s string) {
	d.s = s
	d.res = nil
}
====
func (d *lspDoc) Update(s string) {
	if len(s) != len(d.s) {
		d.res = nil
	}
	d.s = s
}
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), open("u", "int 1"), req(6, "textDocument/diagnostic", doc("u")), change("u", "inx 1"), req(7, "textDocument/diagnostic", doc("u")))
	must(len(byId(out, 7)["result"].(M)["items"].([]any)) > 0, "answered from the old text")
}
