property: K02
needs: a client that counts lines from zero, stopped inside a subroutine
breaks: the lines of the callers are always counted from one
@@ dbg/dbg.go
<<<<
							line = f.Return
							name = f.Name
====
							line = f.Return + 1 - l.lz
							name = f.Name
>>>>
@@ demo
func main() {
	p, done := scratch("#pragma version 8\ncallsub a\nint 1\nreturn\na:\nint 2\nretsub\n")
	out := dap(cmd("initialize", M{"linesStartAt1": false}), cmd("launch", M{"program": p}), cmd("next", M{"threadId": 0}), cmd("next", M{"threadId": 0}), cmd("stackTrace", M{"threadId": 0}))
	done()
	f := respTo(out, 5)[0]["body"].(M)["stackFrames"].([]any)
	must(f[1].(M)["line"] == float64(1), "%v", f)
}
