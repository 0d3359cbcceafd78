property: B01
needs: the constructor of a jump table called with at least two labels of which two are the same
breaks: repeated labels are dropped by the constructor, so later targets move to other positions
@@ expr.go
<<<<
	return &SwitchExpr{Targets: labels}
====
	var ts []*LabelExpr
	for i, l := range labels {
		if i == 0 || l.Name != labels[i-1].Name {
			ts = append(ts, l)
		}
	}
	return &SwitchExpr{Targets: ts}
>>>>
@@ demo
func main() {
	a, b := &teal.LabelExpr{Name: "a"}, &teal.LabelExpr{Name: "b"}
	must(teal.Switch(a, a, b).String() == "switch a a b", "%s", teal.Switch(a, a, b))
}
