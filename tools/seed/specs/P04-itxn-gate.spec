property: P04
needs: setting a field of an inner transaction in a version between the field's introduction and its introduction for inner transactions
breaks: fields settable in inner transactions are gated by the version in which they became readable
@@ parser.go
<<<<
			needed = spec.itxVersion
		}
====
			needed = spec.version
		}
>>>>
@@ demo
func main() {
	must(len(at(teal.Process("#pragma version 5\nitxn_field ApplicationID"), "PARSE")) == 1, "ApplicationID settable in version 5")
}
