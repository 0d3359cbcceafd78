property: V01
needs: the byte-setting opcode applied to a value of the wrong type below two integers
breaks: an integer is accepted where bytes are required
@@ expr.go
<<<<
func (e *SetByteExpr) Execute(b *VmBranch) error {
	b.pop(VmTypeUint64)
	b.pop(VmTypeUint64)
	b.pop(VmTypeBytes)
====
func (e *SetByteExpr) Execute(b *VmBranch) error {
	b.pop(VmTypeUint64)
	b.pop(VmTypeUint64)
	b.pop(VmTypeAny)
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 1\nint 2\nint 3\nsetbyte\n"))
	vm.Run()
	must(vm.Error != nil, "an integer was accepted for bytes")
}
