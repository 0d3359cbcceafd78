property: P05
needs: a match instruction with exactly one repeated target
breaks: a target that repeats the previous one is printed once, so the printed program has another operand list
@@ expr.go
<<<<
	b.WriteString("match")

	if len(e.Targets) > 0 {
		b.WriteString(" ")

		names := make([]string, len(e.Targets))
		for i, l := range e.Targets {
			names[i] = l.Name
		}
====
	b.WriteString("match")

	if len(e.Targets) > 0 {
		b.WriteString(" ")

		names := []string{}
		for i, l := range e.Targets {
			if i > 0 && e.Targets[i-1].Name == l.Name {
				continue
			}
			names = append(names, l.Name)
		}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nmatch a a\na:")
	must(r.Listing[1].String() == "match a a", "%s", r.Listing[1])
}
