property: P03
needs: the mode comment above a version directive
breaks: the version directive puts the program back into application mode
@@ process.go
<<<<
	c.version = version

	return version
====
	if c.version != version {
		c.version, c.mode = version, ModeApp
	}

	return version
>>>>
@@ demo
func main() {
	r := teal.Process(src("#pragma version 8", "//#pragma mode logicsig", "arg 0"))
	must(len(r.Diagnostics) == 0, "%v", r.Diagnostics)
	r = teal.Process(src("//#pragma mode logicsig", "#pragma version 8", "arg 0"))
	must(len(r.Diagnostics) == 0, "%v", r.Diagnostics)
}
