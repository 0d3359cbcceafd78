property: V02
needs: two branches of one fork that both overwrite a value which was on the stack before the fork
breaks: branches share the stack they were forked with, so a write of one is seen by the other
@@ vm.go
<<<<
	return &vmStack{
		Items: append([]VmValue{}, s.Items...),
	}
====
	return &vmStack{
		Items: s.Items,
	}
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 5\nint 1\nbz x\npop\nint 6\nint 7\nb end\nx:\npop\nbyte 0x01\nint 8\nend:\nint 9\nreturn"))
	for i := 0; i < 5; i++ {
		vm.Step()
	}
	b := vm.Branches[1].Id
	vm.Switch(b)
	vm.Step()
	vm.Step()
	must(stack(vm.Branches[0])[0] == "uint64: 6", "the other branch changed the value: %v", stack(vm.Branches[0]))
}
