property: K02
needs: a stack deeper than 64 calls
breaks: the call stack is cut off at 64 levels and the total with it
@@ dbg/dbg.go
<<<<
						for i := len(b.Frames) - 1; i >= 0; i-- {
====
						for i := len(b.Frames) - 1; i >= 0 && len(sf) < 64; i-- {
>>>>
@@ demo
func main() {
	p, done := scratch(src("#pragma version 8", "a:", "callsub a"))
	defer done()
	reqs := []M{cmd("initialize", M{}), cmd("launch", M{"program": p})}
	for i := 0; i < 90; i++ {
		reqs = append(reqs, cmd("next", M{"threadId": 0}))
	}
	reqs = append(reqs, cmd("stackTrace", M{"threadId": 0}))
	out := dap(reqs...)
	m := respTo(out, len(reqs))
	must(len(m) == 1, "%d answers", len(m))
	n := m[0]["body"].(map[string]any)["totalFrames"]
	must(n == float64(91), "%v frames", n)
}
