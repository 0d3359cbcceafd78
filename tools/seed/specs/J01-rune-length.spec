property: J01
needs: a response that contains non-ASCII text, such as a diagnostic quoting the source
breaks: the announced length counts characters, so the message is cut for any client that reads bytes
@@ lsp/lsp.go
<<<<
	h.Set("Content-Length", strconv.Itoa(len(rb)))
====
	h.Set("Content-Length", strconv.Itoa(len([]rune(string(rb)))))
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), open("u", "größe"), req(7, "textDocument/diagnostic", doc("u")), req(8, "textDocument/diagnostic", doc("u")))
	must(byId(out, 7) != nil && byId(out, 8) != nil, "answers missing")
}
