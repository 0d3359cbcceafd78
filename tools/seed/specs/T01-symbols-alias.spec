property: T01
needs: a hover query on the second or later operand of an opcode whose optional operands were given in full plus one more
breaks: hovering over a surplus operand of an opcode without an array operand crashes
@@ process.go
<<<<
					if idx < len(info.Args) {
						arg := info.Args[idx]
						switch arg.Type {
====
					if len(info.Args) > 0 {
						arg := info.Args[idx]
						switch arg.Type {
>>>>
@@ demo
func main() {
	r := teal.Process("global GroupSize surplus")
	for c := -2; c < 25; c++ {
		r.DocAt(0, c)
	}
}
