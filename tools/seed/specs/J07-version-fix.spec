property: J07
imports: strings
needs: an instruction of version 8 or later in a document without a version directive
breaks: the inserted directive declares another version although a higher one is required
@@ lsp/lsp.go
<<<<
						NewText: fmt.Sprintf("#pragma version %d\r\n", arg.Version),
====
						NewText: fmt.Sprintf("#pragma version %d\r\n", arg.Version&7|arg.Version>>4),
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), open("u", "box_get"), req(7, "workspace/executeCommand", M{"command": "teal.version.update", "arguments": A{M{"uri": "u", "version": 8}}}))
	for _, m := range out {
		if m["method"] == "workspace/applyEdit" {
			must(strings.Contains(js(m), "#pragma version 8"), "%s", js(m))
		}
	}
}
