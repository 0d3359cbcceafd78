property: J01
needs: a request sent after shutdown
breaks: requests after shutdown get a null result instead of an error
@@ lsp/lsp.go
<<<<
		if l.shutdown {
			return errors.New("cannot process requests - server is shut down")
		}
====
		if l.shutdown && h.Method != "textDocument/didClose" {
			return errors.New("cannot process requests - server is shut down")
		}
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), req(2, "shutdown", M{}), req(7, "textDocument/didClose", M{"textDocument": M{"uri": "u"}}))
	must(byId(out, 7)["error"] != nil, "no error after shutdown")
}
