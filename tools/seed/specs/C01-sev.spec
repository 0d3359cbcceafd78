property: C01
needs: a diagnostic that is a warning
breaks: the lint command prints warnings as info
@@ diag.go
<<<<
	case DiagInfo:
		return "info"
	case DiagWarn:
		return "warn"
====
	case DiagInfo, DiagWarn:
		return "info"
>>>>
@@ demo
func main() {
	must(teal.DiagnosticSeverity(teal.DiagWarn).String() == "warn", "severity name")
}
