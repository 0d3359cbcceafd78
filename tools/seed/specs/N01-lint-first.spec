property: N01
needs: a listing with several findings, checked by itself
breaks: checking a listing by itself reports each rule only once
@@ compiler.go
<<<<
	lnt.Lint()

	return lnt.errs
====
	lnt.Lint()

	var errs []LineError
	for i, e := range lnt.errs {
		if i > 0 && e.Rule() == lnt.errs[i-1].Rule() {
			continue
		}
		errs = append(errs, e)
	}

	return errs
>>>>
@@ demo
func main() {
	r := teal.Process("#pragma version 8\na:\nb:\nint 1")
	must(len(r.Listing.Lint()) == 2, "%v", r.Listing.Lint())
}
