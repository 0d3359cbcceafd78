property: N01
needs: a label that is defined twice, the second time on the last line
breaks: a referenced label whose second definition ends the program is reported as unused
@@ linter.go
<<<<
	for name, lines := range l.getAllLabels() {
		if len(used[name]) == 0 {
			for _, line := range lines {
====
	for name, lines := range l.getAllLabels() {
		if len(used[name]) == 0 || lines[len(lines)-1] == len(l.l)-1 && len(lines) > 1 {
			for _, line := range lines {
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nbz x\nx:\nint 1\nx:")
	must(len(at(r, "LINT0002")) == 0, "%v", at(r, "LINT0002"))
}
