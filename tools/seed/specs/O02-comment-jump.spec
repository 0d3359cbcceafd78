property: O02
needs: a jump to the next label with a comment or blank line in between
breaks: a jump that only skips comments is no longer removed
@@ compiler.go
<<<<
						n := l[j]
						j += 1

						switch n := n.(type) {
						case *LabelExpr:
							if n.Name == o.Label.Name {
								return
							}
							break loop
						case Nop:
						default:
====
						n := l[j]
						j += 1

						switch n := n.(type) {
						case *LabelExpr:
							if n.Name == o.Label.Name {
								return
							}
							break loop
						case *CommentExpr:
						default:
>>>>
@@ demo
func main() {
	l := teal.Process("#pragma version 8\nb a\n\na:\nint 1").Listing.Optimize()
	must(len(l) == 4, "%s", l.String())
}
