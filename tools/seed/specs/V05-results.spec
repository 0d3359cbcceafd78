property: V05
needs: a subroutine that declares no arguments and three or more results
breaks: at most two results of a subroutine without arguments survive its return
@@ vm.go
<<<<
	f.NumArgs = a
	f.NumReturns = r
====
	f.NumArgs = a
	if f.NumReturns = r; a == 0 && r > 2 {
		f.NumReturns = 2
	}
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\ncallsub a\nint 9\nreturn\na:\nproto 0 3\nint 1\nint 2\nint 3\nretsub"))
	for i := 0; i < 6; i++ {
		vm.Step()
	}
	must(eq(stack(vm.Branches[0]), []string{"uint64: 1", "uint64: 2", "uint64: 3"}), "%v", stack(vm.Branches[0]))
}
