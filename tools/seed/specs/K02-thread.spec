property: K02
needs: a step that ends the requested branch or names an unknown one
breaks: the stop event after a step names the requested branch even if it has ended or does not exist
@@ dbg/dbg.go
<<<<
			return l.notify("stopped", dapStoppedEventParams{
				Reason:            "step",
				AllThreadsStopped: yes,
				ThreadId:          tid,
			})
====
			return l.notify("stopped", dapStoppedEventParams{
				Reason:            "step",
				AllThreadsStopped: yes,
				ThreadId:          &nreq.Arguments.ThreadId,
			})
>>>>
@@ demo
func main() {
	p, done := scratch("#pragma version 8\nint 1\nbz x\nint 1\nreturn\nx:\nint 2\nreturn\n")
	out := dap(cmd("initialize", M{}), cmd("launch", M{"program": p}), cmd("next", M{"threadId": 0}), cmd("next", M{"threadId": 0}), cmd("next", M{"threadId": 0}), cmd("next", M{"threadId": 0}))
	done()
	last := out[len(out)-1]
	must(last["body"].(M)["threadId"] != float64(0), "the stop names an ended branch")
}
