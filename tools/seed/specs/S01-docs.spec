property: S01
needs: two labels with comments between them, the second label following a blank comment
breaks: comment lines of an earlier label leak into the documentation of the next one when exactly one line separates the two labels
@@ process.go
<<<<
				c.emit(lbl)
				c.comments = nil
====
				c.emit(lbl)
				if len(lsyms) < 2 || lsyms[len(lsyms)-2].l != t.l-2 {
					c.comments = nil
				}
>>>>
@@ demo
func main() {
	r := teal.Process("// one\na:\nb:\n// two\nc:\nb a\nb b\nb c")
	must(r.Symbols[1].Docs() == "", "b: %q", r.Symbols[1].Docs())
	r = teal.Process("x:\n// one\na:\nb:\n// two\nc:\n// three\nd:\n")
	must(r.Symbols[3].Docs() == " two", "c: %q", r.Symbols[3].Docs())
	r = teal.Process("a:\n// doc of b\nb:\nc:")
	must(r.Symbols[2].Docs() == "", "c: %q", r.Symbols[2].Docs())
	r = teal.Process("// zero\nx:\n// one\na:\nb:\nc:")
	must(r.Symbols[3].Docs() == "", "c: %q", r.Symbols[3].Docs())
}
