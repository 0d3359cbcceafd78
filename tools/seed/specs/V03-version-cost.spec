property: V03
needs: a version 1 program that hashes
breaks: in version 1 programs the SHA-512/256 hash is charged as in later versions
@@ expr.go
<<<<
	case 1:
		return []int{9}
	default:
		return []int{45}
====
	case 0:
		return []int{9}
	default:
		return []int{45}
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("byte 0x01\nsha512_256"))
	vm.Run()
	must(vm.Branches[0].Budget == 690, "budget %d", vm.Branches[0].Budget)
}
