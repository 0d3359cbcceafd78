property: P05
needs: a frame index below -99
breaks: very negative frame indexes are printed without their last digit
@@ expr.go
<<<<
	return fmt.Sprintf("frame_dig %d", e.Index)
====
	return fmt.Sprintf("frame_dig %.3s", strconv.Itoa(int(e.Index)))
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nframe_dig -128")
	must(r.Listing[1].String() == "frame_dig -128", "%s", r.Listing[1])
}
