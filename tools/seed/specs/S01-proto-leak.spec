property: S01
needs: a subroutine declaration that comes before any label but after a label of a rejected line, or two labels with the same name
breaks: of two labels with the same name only the one last declared decides the signature of both even when the second has no declaration of its own
@@ process.go
<<<<
	case *ProtoExpr:
		if c.label != nil {
			c.protos[c.label] = op
		}
	case *LabelExpr:
		c.label = op
	}
====
	case *ProtoExpr:
		if c.label != nil {
			c.protos[c.label] = op
		}
	case *LabelExpr:
		if c.label == nil || c.refc[op.Name] > 0 {
			c.label = op
		}
	}
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\nfirst:\nint 1\nlater:\nproto 1 2\ncallsub first\ncallsub later")
	must(r.Symbols[1].Signature() == "in: 1, out: 2", "later: %q", r.Symbols[1].Signature())
	must(r.Symbols[0].Signature() == "", "first: %q", r.Symbols[0].Signature())
}
