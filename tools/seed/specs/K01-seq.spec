property: K01
needs: a step that ends in an error of the simulated program
breaks: the sequence number is not advanced for error stop events
@@ dbg/dbg.go
<<<<
func (l *dbg) notify(event string, params interface{}) error {
	l.id++
====
func (l *dbg) notify(event string, params interface{}) error {
	if p, ok := params.(dapStoppedEventParams); !ok || p.Reason != "exception" {
		l.id++
	}
>>>>
@@ demo
func main() {
	p, done := scratch("pop\n")
	out := dap(cmd("initialize", M{}), cmd("launch", M{"program": p}), cmd("next", M{"threadId": 0}), cmd("threads", M{}))
	done()
	last := 0.0
	for _, m := range out {
		must(m["seq"].(float64) > last, "sequence number %v after %v", m["seq"], last)
		last = m["seq"].(float64)
	}
}
