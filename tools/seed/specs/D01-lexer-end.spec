property: D01
needs: an unterminated string at the end of a line
breaks: the reported range ends one column past the end of the line
@@ lexer.go
<<<<
func (e lexerError) End() int {
	return e.li
}
====
func (e lexerError) End() int {
	return e.li + 1
}
>>>>
@@ demo
func main() {
	text := "byte \"abc"
	r := teal.Process(text)
	for _, d := range r.Diagnostics {
		must(d.End() <= len(text), "range ends at %d of %d", d.End(), len(text))
	}
}
