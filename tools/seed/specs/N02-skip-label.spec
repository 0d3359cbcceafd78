property: N02
needs: an unconditional jump followed by another label and then by its target
breaks: a jump over another label is reported as redundant
@@ linter.go
<<<<
								l.errs = append(l.errs, BJustBeforeLabelError{l: i, rule: r.Id()})
								l.reds = append(l.reds, RedundantBLine{line: i})
								return
							}
							break loop
====
								l.errs = append(l.errs, BJustBeforeLabelError{l: i, rule: r.Id()})
								l.reds = append(l.reds, RedundantBLine{line: i})
								return
							}
							if n.Name == "" {
								break loop
							}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nbz y\nb x\ny:\nx:\nint 1")
	must(len(at(r, "LINT0004")) == 0, "%v", at(r, "LINT0004"))
}
