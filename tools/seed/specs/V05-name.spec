property: V05
needs: a call nested inside another call
breaks: after returning from a nested call the branch continues at the return line of the outer call
@@ expr.go
<<<<
		b.Line = f.Return + 1
		b.Name = f.Name
====
		ret := f.Return
		if len(b.Frames) > 2 {
			ret = b.Frames[len(b.Frames)-2].Return
		}
		b.Line = ret + 1
		b.Name = f.Name
>>>>
@@ demo
func main() {
	vm := teal.NewVm(teal.Process("#pragma version 8\ncallsub a\nint 1\nreturn\na:\ncallsub b\nint 2\npop\nretsub\nb:\ncallsub c\nint 3\npop\nretsub\nc:\nint 4\npop\nretsub"))
	vm.Run()
	n := 0
	for _, o := range vm.Branches[0].Trace {
		if o.String() == "int 3" {
			n++
		}
	}
	must(n == 1, "int 3 executed %d times", n)
}
