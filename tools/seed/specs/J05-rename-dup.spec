property: J05
needs: renaming from a reference when the label is defined more than once
breaks: from a reference only the first definition of the label is renamed
@@ lsp/lsp.go
<<<<
			for _, edited := range res.SymbolRefsWithin(req.Params.Position) {
				for _, sym := range res.SymByName(edited.String()) {
====
			for _, edited := range res.SymbolRefsWithin(req.Params.Position) {
				for _, sym := range firstOf(res.SymByName(edited.String())) {
>>>>
@@ lsp/doc.go
<<<<
func newDoc(s string) *doc {
====
func firstOf[T any](v []T) []T {
	if len(v) > 1 {
		return v[:1]
	}
	return v
}

func newDoc(text string) *doc {
	s := text
>>>>
@@ demo
func main() {
	p := pos("u", 0, 3)
	p["newName"] = "zz"
	r := ask("b xx\nxx:\nxx:\n", "textDocument/rename", p).(M)
	must(len(r["changes"].(M)["u"].([]any)) == 3, "%v", r)
}
