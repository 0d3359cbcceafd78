property: P02
needs: a hex escape in which an underscore stands in for the first digit
breaks: malformed hex escapes are accepted as one-digit numbers
@@ go_algorand.go
<<<<
			num, err := strconv.ParseUint(input[pos:pos+2], 16, 8)
====
			num, err := strconv.ParseUint("0x"+input[pos:pos+2], 0, 8)
>>>>
@@ demo
func main() {
	must(len(at(teal.Process("byte \"\\x_4\""), "PARSE")) == 1, "malformed hex escape accepted")
}
