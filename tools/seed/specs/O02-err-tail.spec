property: O02
needs: instructions after err, before the next label
breaks: unreachable code after err is no longer removed
@@ compiler.go
<<<<
		case *ErrExpr:
			skip = true
		}

		res = append(res, o)
====
		case *ErrExpr:
			skip = i == 0
		}

		res = append(res, o)
>>>>
@@ demo
func main() {
	l := teal.Process("#pragma version 8\nint 1\nerr\nint 2\nint 3").Listing.Optimize()
	must(len(l) == 3, "%s", l.String())
}
