property: L01
needs: a source of more than 4096 tokens whose lexer is stepped all the way back
breaks: a lexer far into a source forgets its first tokens, so stepping back does not return to them
@@ lexer.go
<<<<
	if len(z.ts) == z.tsi {
		z.read()
	}

	return len(z.ts) > z.tsi
====
	for len(z.ts) == z.tsi && z.i < len(z.Source) {
		if z.tsi > 1<<12 {
			z.ts = append([]Token{}, z.ts[len(z.ts)-16:]...)
			z.tsi = len(z.ts)
		}
		z.read()
		break
	}

	return len(z.ts) > z.tsi
>>>>
@@ demo
func main() {
	s := ""
	for i := 0; i < 3000; i++ {
		s += "pop\n"
	}
	z := &teal.Lexer{Source: []byte("first\n" + s)}
	n := 0
	for z.Scan() {
		n++
	}
	back := 0
	for z.Return() {
		back++
	}
	must(n == 6002, "%d tokens", n)
	must(back == n && z.Curr().String() == "first", "back at %q after %d steps", z.Curr().String(), back)
}
