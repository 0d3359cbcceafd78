property: J09
needs: a document of several lines
breaks: the edit leaves the last lines in place, so they are there twice after formatting
@@ lsp/lsp.go
<<<<
						End: lspPosition{
							Line:      len(res.Lines),
							Character: 0,
						},
					},
					NewText: formatted,
====
						End: lspPosition{
							Line:      len(res.Lines) - len(res.Lines)/2,
							Character: 0,
						},
					},
					NewText: formatted,
>>>>
@@ demo
func main() {
	r := ask("int 1\nint 2", "textDocument/formatting", doc("u")).([]any)
	end := r[0].(M)["range"].(M)["end"].(M)
	must(end["line"].(float64) >= 2 || end["character"].(float64) >= 5, "%v", end)
}
