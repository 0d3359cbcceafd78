property: J10
needs: a client that switches one of the two kinds of hints off
breaks: the server does not announce inlay hints although one kind is on
@@ lsp/lsp.go
<<<<
			if l.config.InlayNamed || l.config.InlayDecoded {
====
			if l.config.InlayNamed && l.config.InlayDecoded {
>>>>
@@ demo
func main() {
	for _, o := range []string{"inlayNamed", "inlayDecoded"} {
		out, _ := lspRun(req(1, "initialize", M{"initializationOptions": M{o: false}}))
		m := byId(out, 1)
		must(m != nil, "no answer")
		c := m["result"].(map[string]any)["capabilities"].(map[string]any)
		must(c["inlayHintProvider"] != nil && c["inlayHintProvider"] != false, "hints are not announced without %s", o)
	}
}
