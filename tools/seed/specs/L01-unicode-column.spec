property: L01
needs: an error in or after a string with a multi-byte character
breaks: columns after a wide character are counted in characters while the tokens count bytes
@@ lexer.go
<<<<
	z.ts = append(z.ts, Token{
		l: z.l,
		b: z.p - z.lb,
		e: z.i - z.lb,

		v: string(z.Source[z.p:z.i]),
		t: t,
	})

	z.p = z.i
====
	z.ts = append(z.ts, Token{
		l: z.l,
		b: z.p - z.lb,
		e: z.p - z.lb + utf8.RuneCount(z.Source[z.p:z.i]),

		v: string(z.Source[z.p:z.i]),
		t: t,
	})

	z.p = z.i
>>>>
@@ demo
func main() {
	r := teal.Process("b größe")
	t := r.Tokens[1]
	must(t.End()-t.Begin() == len("größe"), "token covers %d bytes", t.End()-t.Begin())
}
