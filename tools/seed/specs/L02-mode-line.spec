property: L02
needs: a logic signature mode comment above the instructions
breaks: the mode comment yields no entry, so every later entry is shifted up by one line
@@ process.go
<<<<
				if strings.TrimSpace(c.args.Curr().String()) == "#pragma mode logicsig" {
					c.mode = ModeSig
				} else {
					c.comment(c.args.Curr().String())
				}
				c.emit(Empty)
				return
====
				if strings.TrimSpace(c.args.Curr().String()) == "#pragma mode logicsig" {
					again := c.mode == ModeSig
					if c.mode = ModeSig; again {
						return
					}
				} else {
					c.comment(c.args.Curr().String())
				}
				c.emit(Empty)
				return
>>>>
@@ demo
func main() {
	r := teal.Process("//#pragma mode logicsig\nint 1\n//#pragma mode logicsig\nint 2")
	must(len(r.Listing) == 4, "%d entries", len(r.Listing))
	must(r.Listing[3].String() == "int 2", "entry 3 is %s", r.Listing[3])
}
