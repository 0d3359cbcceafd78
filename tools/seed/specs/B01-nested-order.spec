property: B01
needs: a nested list of at least four expressions
breaks: an empty line is added before the last of four or more expressions of a nested list
@@ compiler.go
<<<<
			for _, e := range e {
				to = c.compile(to, e)
			}
====
			for i := range e {
				if len(e) > 3 && i == len(e)-1 {
					to = append(to, Empty)
				}
				to = c.compile(to, e[i])
			}
>>>>
@@ demo
func main() {
	l := teal.Compile([]teal.Expr{[]teal.Expr{teal.Pop, teal.Dup, teal.Swap, teal.Err}})
	must(len(l) == 4, "%d instructions", len(l))
}
