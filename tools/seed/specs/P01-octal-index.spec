property: P01
needs: a small index written with a leading zero
breaks: 010 is read as eight instead of ten, and 0x1 is accepted
@@ parser.go
<<<<
func readUint8(s string) (uint8, error) {
	v, err := strconv.ParseUint(s, 10, 8)
====
func readUint8(s string) (uint8, error) {
	v, err := strconv.ParseUint(s, 0, 8)
>>>>
@@ demo
func main() {
	r := teal.Process("load 010")
	must(r.Listing[0].String() == "load 10", "%s", r.Listing[0])
	must(len(at(teal.Process("load 0x1"), "PARSE")) == 1, "hex index accepted")
}
