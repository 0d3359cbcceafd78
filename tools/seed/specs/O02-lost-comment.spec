property: O02
needs: more than one comment in unreachable code
breaks: comments in removed code are dropped after the first
@@ compiler.go
<<<<
				case Nop:
					res = append(res, o2)
				}
			}
		}
	}
	return res
}
====
				case Nop:
					if res[len(res)-1] == o {
						res = append(res, o2)
					}
				}
			}
		}
	}
	return res
}
>>>>
@@ demo
func main() {
	l := teal.Process("#pragma version 8\nerr\n// a\n// b\nint 1\n// c").Listing.Optimize()
	must(len(l) == 5, "%s", l.String())
}
