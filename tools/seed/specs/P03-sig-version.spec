property: P03
needs: a logic signature with an opcode that logic signatures got earlier than applications
breaks: in logic signature mode an opcode is measured against the version of application mode once a version directive has been seen
@@ process.go
<<<<
					case ModeSig:
						min = info.SigVersion
					}
====
					case ModeSig:
						if min = info.SigVersion; c.vtok != nil && min > 0 && info.AppVersion > min {
							min = info.AppVersion
						}
					}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 3\n//#pragma mode logicsig\ned25519verify")
	must(len(at(r, "LINT0008")) == 0, "ed25519verify refused")
}
