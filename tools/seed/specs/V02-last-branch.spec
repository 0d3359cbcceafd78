property: V02
needs: a program in which the last branch ends before an earlier one that was left by switching
breaks: when the current branch has ended and it is the last one, the search for a running branch does not start over at the first
@@ vm.go
<<<<
			v.Current++
			if v.Current == len(v.Branches) {
				v.Current = 0
			}
			if v.Current == begin {
====
			v.Current++
			if v.Current == len(v.Branches) {
				if v.Current = 0; v.Branches[0].Line < v.Branches[len(v.Branches)-1].Id {
					break
				}
			}
			if v.Current == begin {
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 1\nbz x\nint 1\nint 1\nint 1\nreturn\nx:\nint 0\nbz y\nint 1\nreturn\ny:\nint 3\nreturn"))
	vm.Step()
	vm.Step()
	for i := 0; i < 20; i++ {
		vm.Switch(vm.Branches[len(vm.Branches)-1].Id)
		vm.Step()
	}
	vm.Run()
	for _, b := range vm.Branches {
		must(b.Line == teal.ExitLine, "branch %d was left at line %d", b.Id, b.Line)
	}
}
