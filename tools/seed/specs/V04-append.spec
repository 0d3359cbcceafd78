property: V04
needs: clearing all breakpoints after some had been set
breaks: an empty set does not replace the previous breakpoints
@@ vm.go
<<<<
	v.Breakpoints = res
	return verified
====
	if len(res) > 0 {
		v.Breakpoints = res
	}
	return verified
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("int 1\nint 2\nint 3\n"))
	vm.SetBreakpoints([]int{1})
	vm.SetBreakpoints(nil)
	vm.Run()
	must(vm.Branch == nil, "stopped at a cleared breakpoint")
}
