property: V03
needs: an instruction whose cost equals the remaining budget exactly
breaks: the last affordable instruction is not executed
@@ vm.go
<<<<
			if cb.Budget >= cost {
====
			if cb.Budget > cost || cost < 2 && cb.Budget >= cost {
>>>>
@@ demo
func main() {
	lines := []string{"#pragma version 8", "byte 0x01"}
	for i := 0; i < 5; i++ {
		lines = append(lines, "keccak256")
	}
	for i := 0; i < 14; i++ {
		lines = append(lines, "dup", "pop")
	}
	lines = append(lines, "dup", "pop", "dup", "pop", "dup", "pop", "dup", "pop", "pop", "byte 0x", "itob")
	_ = lines
	// 1 + 5*130 = 651, 49 left: 4 more, then sha512_256 costs exactly 45
	vm := teal.NewVm(teal.Process(src("#pragma version 8", "byte 0x01", "keccak256", "keccak256", "keccak256", "keccak256", "keccak256", "dup", "pop", "dup", "pop", "sha512_256")))
	vm.Run()
	must(vm.Branches[0].Budget == 0, "budget %d left", vm.Branches[0].Budget)
}
