property: J06
needs: a token longer than 40 characters followed on the next line by a token that starts further right
breaks: the column of a token below a very long token is encoded relative to it
@@ semantics.go
<<<<
		if st.Line == prev.Line {
====
		if st.Line == prev.Line || st.Line == prev.Line+1 && st.Index > prev.Index && prev.Length > 40 {
>>>>
@@ demo
func main() {
	st := teal.SemanticTokens{{Line: 0, Index: 2, Length: 60}, {Line: 1, Index: 5, Length: 1}}
	must(eq(st.Encode(), []uint32{0, 2, 60, 0, 0, 1, 5, 1, 0, 0}), "%v", st.Encode())
}
