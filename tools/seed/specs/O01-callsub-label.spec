property: O01
needs: a label that is only the second or later target of a multi-way branch
breaks: labels named only as a later target of switch or match are removed by the optimiser
@@ compiler.go
<<<<
			for _, l := range o.Labels() {
				used[l.Name] = true
			}
====
			for _, l := range o.Labels() {
				if used[l.Name] = true; len(o.Labels()) > 1 && len(res) == 0 {
					break
				}
			}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nint 2\nint 3\nmatch a b\nerr\na:\nint 1\nreturn\nb:\nint 2\nreturn")
	must(len(teal.Process(r.Listing.Optimize().String()).MissRefs) == 0, "a target label was removed")
}
