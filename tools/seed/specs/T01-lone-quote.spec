property: T01
needs: a text whose last byte is a lone opening quote of a byte constant operand
breaks: analysing the text panics instead of reporting the constant (two sites that are each fine alone)
@@ process.go
<<<<
	if len(arg) > 1 && arg[0] == '"' && arg[len(arg)-1] == '"' {
====
	if strings.HasPrefix(arg, `"`) && strings.HasSuffix(arg, `"`) {
>>>>
@@ go_algorand.go
<<<<
	result = make([]byte, 0, end-start+1)
====
	result = make([]byte, 0, end-start)
>>>>
@@ demo
func main() {
	teal.Process("#pragma version 8\nbyte \"\"")
	teal.Process("#pragma version 8\nbyte \"")
}
