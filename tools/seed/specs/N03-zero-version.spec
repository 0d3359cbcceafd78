property: N03
needs: a rejected version directive (zero) below a valid one
breaks: a rejected directive still changes the version in force for what follows
@@ process.go
<<<<
		v := c.mustReadInt("version value")

		tok := c.args.Curr()
		c.vtok = &tok

		if v < 1 {
====
		v := c.mustReadInt("version value")

		tok := c.args.Curr()
		c.vtok, c.version = &tok, v

		if v < 1 {
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\n#pragma version 0\ndivw")
	must(r.Version == 8, "version %d", r.Version)
}
