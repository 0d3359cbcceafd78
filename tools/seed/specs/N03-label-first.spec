property: N03
needs: three version directives, the later ones after comments
breaks: a version directive that repeats the value of the one directly before it is not reported as misplaced
@@ linter.go
<<<<
			if prev != nil {
				l.errs = append(l.errs, PragmaVersionAfterInstrError{
====
			if p, ok := prev.(*PragmaExpr); prev != nil && !(ok && p.Version == op.Version) {
				l.errs = append(l.errs, PragmaVersionAfterInstrError{
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\n#pragma version 8\nint 1")
	must(eq(at(r, "LINT0006"), []int{1}), "%v", at(r, "LINT0006"))
}
