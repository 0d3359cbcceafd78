property: J08
needs: completion for setting a field of an inner transaction in version 6
breaks: completion offers fields that cannot be set yet in the declared version
@@ process.go
<<<<
		for _, v := range OpArgVals[arg.Type] {
			if r.Version >= v.Version {
				res = append(res, v)
			}
		}
====
		for _, v := range OpArgVals[arg.Type] {
			if r.Version >= v.Version || arg.Type == OpArgTypeItxnField && r.Version+1 >= v.Version && v.Version > 6 {
				res = append(res, v)
			}
		}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 6\nitxn_field ")
	for _, v := range r.ArgValsAt(1, 11) {
		rr := teal.Process("#pragma version 6\nitxn_field " + v.Name)
		must(len(rr.Diagnostics) == 0, "%s is offered and refused", v.Name)
	}
}
