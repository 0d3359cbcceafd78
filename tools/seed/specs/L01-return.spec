property: L01
needs: stepping a lexer back to its first token and then once more
breaks: stepping back at the first token reports success
@@ lexer.go
<<<<
	if z.tsi == 0 {
		return false
	}

	z.tsi--

	return true
====
	if z.tsi > 1 {
		z.tsi--
	}

	return z.tsi > 0
>>>>
@@ demo
func main() {
	z := teal.Lexer{Source: []byte("a b c")}
	z.Scan()
	z.Scan()
	must(z.Return() && z.Curr().String() == "a", "back at %q", z.Curr().String())
	must(!z.Return(), "before the first token")
}
