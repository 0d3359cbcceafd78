property: J06
needs: a byte-encoding keyword in an instruction with several byte constants
breaks: the encoding keyword is not highlighted when it is not the first of its line
@@ process.go
<<<<
	if arg == "base32" || arg == "b32" {
		c.keys = append(c.keys, c.args.Curr())
====
	if arg == "base32" || arg == "b32" {
		if c.args.i < 4 {
			c.keys = append(c.keys, c.args.Curr())
		}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nbytecblock b32 AA b32 AA b32 AA")
	must(len(r.Keywords) == 3, "%d keywords", len(r.Keywords))
}
