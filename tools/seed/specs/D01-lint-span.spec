property: D01
needs: an unreachable instruction on an indented line
breaks: the range of a lint finding is shifted by the indentation and ends past the end of the line
@@ process.go
<<<<
		c.diag = append(c.diag, lintError{
			error: le,
			l:     le.Line(),
			b:     ln.Begin(),
			e:     ln.End(),
			s:     le.Severity(),
			r:     le.Rule(),
		})
====
		c.diag = append(c.diag, lintError{
			error: le,
			l:     le.Line(),
			b:     ln.Begin(),
			e:     ln.Begin() + ln.End(),
			s:     le.Severity(),
			r:     le.Rule(),
		})
>>>>
@@ demo
func main() {
	lines := []string{"err", "   int 1"}
	r := teal.Process(src(lines...))
	for _, d := range r.Diagnostics {
		must(d.End() <= len(lines[d.Line()]), "range ends at %d", d.End())
	}
}
