property: N01
needs: the same undefined label named by two or more instructions
breaks: only the first instruction that names an undefined label is reported
@@ linter.go
<<<<
			for _, user := range users {
				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
			}
====
			for i, user := range users {
				if i > 0 && users[0] != user {
					break
				}
				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
			}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nint 1\nbz x\nint 1\nbnz x\n")
	must(eq(at(r, "LINT0005"), []int{2, 4}), "%v", at(r, "LINT0005"))
}
