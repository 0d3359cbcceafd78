property: J02
needs: a label removal command without arguments
breaks: the command crashes the server
@@ lsp/lsp.go
<<<<
				var body lspWorkspaceExecuteCommandBody[[]tealRemoveLabelCommandArgs]
				err := readInto(b, &body)
				if err != nil {
					return err
				}

				args := body.Params.Arguments
				if len(args) != 1 {
====
				var body lspWorkspaceExecuteCommandBody[[]tealRemoveLabelCommandArgs]
				err := readInto(b, &body)
				if err != nil {
					return err
				}

				args := body.Params.Arguments
				if len(args) > 1 {
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), open("u", "a:"), req(7, "workspace/executeCommand", M{"command": "teal.label.remove", "arguments": A{}}))
	must(byId(out, 7)["error"] != nil, "no error")
}
