property: P01
needs: an opcode whose second operand is missing, on a line other than the first
breaks: the error about the missing second operand is put on the first line of the file
@@ process.go
<<<<
	if !c.args.Scan() {
		c.failPrev(errors.Errorf("missing arg: %s", name))
	}
====
	if !c.args.Scan() {
		c.failCurr(errors.Errorf("missing arg: %s", name))
	}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nproto 1")
	must(eq(at(r, "PARSE"), []int{2}), "errors on lines %v", at(r, "PARSE"))
}
