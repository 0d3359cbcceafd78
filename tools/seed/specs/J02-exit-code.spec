property: J02
needs: three or more open documents when shutdown is requested
breaks: the server reports an unclean exit although shutdown was requested
@@ lsp/lsp.go
<<<<
		case "shutdown":
			l.shutdown = true
			return l.success(h.Id, []struct{}{})
====
		case "shutdown":
			l.shutdown = !l.exit && len(l.docs) < 3
			return l.success(h.Id, []struct{}{})
>>>>
@@ demo
func main() {
	_, code := lspRun(initialize(), open("a", ""), open("b", ""), open("c", ""), req(2, "shutdown", M{}), note("exit", nil))
	must(code == 0, "exit status %d", code)
}
