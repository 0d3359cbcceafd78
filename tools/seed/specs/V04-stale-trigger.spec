property: V04
needs: running on from a breakpoint that a branch has reached
breaks: the record of the last stop is kept when the branch that hit it steps on, so the next stop names both branches
@@ vm.go
<<<<
	v.Error = nil
	v.Triggered = map[int][]int{}
====
	v.Error = nil
	if v.Branch == nil || v.Current == 0 {
		v.Triggered = map[int][]int{}
	}
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 1\nbz x\nint 1\nreturn\nx:\nint 2\npop\nint 3\nreturn"))
	vm.SetBreakpoints([]int{6, 8})
	stops := 0
	for i := 0; i < 20 && vm.Branch != nil; i++ {
		vm.Run()
		if len(vm.Triggered) > 0 {
			stops++
		}
	}
	must(stops == 2, "%d stops", stops)
}
