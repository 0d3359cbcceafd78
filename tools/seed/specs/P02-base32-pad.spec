property: P02
needs: base32 text with wrong padding
breaks: base32 constants with missing or surplus padding characters are accepted
@@ go_algorand.go
<<<<
func base32DecodeAnyPadding(x string) (val []byte, err error) {
	val, err = base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(x)
====
func base32DecodeAnyPadding(x string) (val []byte, err error) {
	y := x
	for len(y) > 8 && y[len(y)-1] == '=' {
		y = y[:len(y)-1]
	}
	val, err = base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(y)
>>>>
@@ demo
func main() {
	must(len(at(teal.Process("byte base32 GEZDGNBVGY3TQOJQ=="), "PARSE")) == 1, "wrong padding accepted")
	must(len(at(teal.Process("byte base32 GEZDGNBVGY3TQOI="), "PARSE")) == 0, "right padding rejected")
}
