property: J10
needs: a client that gives both the counters' option and the named hints' option
breaks: the option for reference counters is ignored when another option is given too
@@ lsp/lsp.go
<<<<
					if req.Params.InitializationOptions.LensRefs != nil {
====
					if req.Params.InitializationOptions.LensRefs != nil && req.Params.InitializationOptions.InlayNamed == nil {
>>>>
@@ demo
func main() {
	for _, named := range []bool{true, false} {
		out, _ := lspRun(req(1, "initialize", M{"initializationOptions": M{"lensRefs": false, "inlayNamed": named}}), open("u", "a:\nb a"), req(7, "textDocument/codeLens", doc("u")))
		m := byId(out, 7)
		must(m != nil && m["error"] == nil, "no answer")
		l, _ := m["result"].([]any)
		must(len(l) == 0, "counters although switched off: %v", l)
	}
}
