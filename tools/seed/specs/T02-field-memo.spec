property: T02
needs: an earlier analysis in the same process of a program with a higher version that uses the same field name
breaks: a field that the second program's version does not have is accepted because an earlier program was allowed to use it
@@ parser.go
<<<<
func readGlobalField(v uint64, s string) (GlobalField, bool, error) {
	spec, ok := globalFieldSpecByName[s]
	if ok {
		needed := spec.version
		if needed > v {
====
var globalFieldSeen = map[string]bool{}

func readGlobalField(v uint64, s string) (GlobalField, bool, error) {
	spec, ok := globalFieldSpecByName[s]
	if ok {
		needed := spec.version
		if needed <= v {
			globalFieldSeen[s] = true
		}
		if !globalFieldSeen[s] {
>>>>
@@ demo
func main() {
	old := "#pragma version 2\nglobal OpcodeBudget\n"
	n := len(teal.Process(old).Diagnostics)
	teal.Process("#pragma version 8\nglobal OpcodeBudget\n")
	must(len(teal.Process(old).Diagnostics) == n, "the result depends on what was analysed before")
}
