property: J03
needs: a change notification that carries more than one full text
breaks: only the first text of a change notification is used
@@ lsp/lsp.go
<<<<
			doc.Update(ch.Text)
		}
====
			if doc.s != ch.Text {
				doc.Update(ch.Text)
				break
			}
		}
>>>>
@@ demo
func main() {
	out, _ := lspRun(initialize(), open("u", "int 1"), change("u", "int 2", "inx 3"), req(7, "textDocument/diagnostic", doc("u")))
	must(len(byId(out, 7)["result"].(M)["items"].([]any)) > 0, "answered from an old text")
}
