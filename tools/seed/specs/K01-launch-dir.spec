property: K01
needs: a second launch request, for a file that cannot be read
breaks: the failure to read the program is answered as a success
@@ dbg/dbg.go
<<<<
			bs, err := os.ReadFile(lreq.Arguments.Program)
			if err != nil {
				return err
			}
====
			bs, err := os.ReadFile(lreq.Arguments.Program)
			if err != nil && len(bs) == 0 && l.vm == nil {
				return err
			}
>>>>
@@ demo
func main() {
	p, done := scratch("int 1\n")
	out := dap(cmd("initialize", M{}), cmd("launch", M{"program": p}), cmd("launch", M{"program": p + ".none"}))
	done()
	must(respTo(out, 3)[0]["success"] == false, "launching a missing file succeeded")
}
