property: L01
needs: a lone CR right after a comment followed by another LF-terminated line (mixed line ends)
breaks: a CR line end directly before a CRLF is merged with it, so that later tokens get line numbers that are too small
@@ lexer.go
<<<<
				c2, n2 := utf8.DecodeRune(z.Source[z.i:])
				if c2 == '\n' {
					z.inc(n2)
				}
====
				c2, n2 := utf8.DecodeRune(z.Source[z.i:])
				for c2 == '\n' || c2 == '\r' && z.i+1 < len(z.Source) && z.Source[z.i+1] == '\n' {
					z.inc(n2)
					if c2 == '\n' {
						break
					}
					c2, n2 = utf8.DecodeRune(z.Source[z.i:])
				}
>>>>
@@ demo
func main() {
	r := teal.Process("int 1\r\r\nint 2")
	last := r.Tokens[len(r.Tokens)-1]
	must(last.Line() == 2, "line %d", last.Line())
}
