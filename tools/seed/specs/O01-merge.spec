property: O01
needs: two different labels in a row that are both branched to
breaks: the optimiser drops the second of two adjacent labels without redirecting the branches to it
@@ compiler.go
<<<<
		switch o.(type) {
		case Nop:
		default:
			prev = o
		}
====
		switch o.(type) {
		case *EmptyExpr, *CommentExpr:
		default:
			prev = o
		}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nbz a\nint 1\nbz b\nerr\na:\nb:\nint 1\nreturn")
	must(len(teal.Process(r.Listing.Optimize().String()).MissRefs) == 0, "a target label was removed")
}
