property: J07
imports: strings
needs: a printable hex constant that ends in a blank
breaks: hex bytes are replaced by a literal without their trailing blanks
@@ process.go
<<<<
				bs, err := hex.DecodeString(s[2:])
				if err != nil {
					return
				}

				ds := string(bs)
====
				bs, err := hex.DecodeString(s[2:])
				if err != nil {
					return
				}

				ds := strings.TrimRight(string(bs), " ")
>>>>
@@ demo
func main() {
	r := teal.Process("byte 0x6120")
	out, _ := lspRun(initialize(), open("u", "byte 0x6120"), req(7, "textDocument/codeAction", rng("u", 0, 0, 0, 11)))
	_ = r
	must(!strings.Contains(js(byId(out, 7)), `\"a\"`), "%s", js(byId(out, 7)))
}
