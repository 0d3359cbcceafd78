property: P03
needs: a program of version 5 that uses one particular opcode
breaks: divw is offered one version too early
@@ process.go
<<<<
func opDivw(c ProcessContext) {
	c.minVersion(6)
====
func opDivw(c ProcessContext) {
	c.minVersion(5)
>>>>
@@ demo
func main() {
	must(len(at(teal.Process("#pragma version 5\ndivw"), "LINT0008")) == 1, "divw accepted in version 5")
}
