property: N02
needs: a loop whose only way out is a multi-way branch with a target outside that is not the first
breaks: only the first target of a branch inside a loop is considered as a way out, so such a loop is reported as infinite
@@ linter.go
<<<<
			for _, lbl := range op.Labels() {
				for _, idx := range labels[lbl.Name] {
					if idx < from || idx > to {
						// TODO: check if the target label block is escapable
						return true
					}
				}
			}
====
			for _, lbl := range op.Labels() {
				inside := false
				for _, idx := range labels[lbl.Name] {
					if inside = idx >= from && idx <= to; !inside {
						// TODO: check if the target label block is escapable
						return true
					}
				}
				if inside {
					break
				}
			}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nx:\nint 1\nswitch x out\nb x\nout:\nint 1")
	must(len(at(r, "LINT0005")) == 0, "%v", at(r, "LINT0005"))
}
