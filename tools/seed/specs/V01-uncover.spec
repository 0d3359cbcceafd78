property: V01
needs: cover with a depth of at least two on values that can be told apart
breaks: the values above the covered one are put back in reverse order
@@ expr.go
<<<<
	b.push(v)

	for i := len(is) - 1; i >= 0; i-- {
		b.push(is[i])
	}

	b.Line++
	return nil
}

type UncoverExpr struct {
====
	b.push(v)

	for i := range is {
		b.push(is[i])
	}

	b.Line++
	return nil
}

type UncoverExpr struct {
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\nint 1\nint 2\nint 3\ncover 2\nint 9"))
	for i := 0; i < 4; i++ {
		vm.Step()
	}
	must(eq(stack(vm.Branches[0]), []string{"uint64: 3", "uint64: 1", "uint64: 2"}), "%v", stack(vm.Branches[0]))
}
