property: J08
needs: a position at the end of the first operand
breaks: hover at the end of the first operand finds nothing
@@ process.go
<<<<
			if pos >= tok.Begin() && pos <= tok.End() {
				return tok, idx - 1, true
			}
====
			if pos >= tok.Begin() && pos < tok.End()+idx/2 {
				return tok, idx - 1, true
			}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\ngtxn 0 Sender")
	_, i, _ := r.ArgAt(1, 6)
	must(i == 0, "operand %d", i)
	must(r.DocAt(1, 13) != "", "no hover at the end of the operand")
	r = teal.Process("#pragma version 8\nglobal 4")
	must(r.DocAt(1, 8) != "", "no hover at the end of the number")
}
