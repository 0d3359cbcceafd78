property: P04
needs: an account parameter written as a number
breaks: numbers for account parameters denote the next field
@@ parser.go
<<<<
	return AcctParamsField(value), false, nil
====
	return AcctParamsField(value + value/8), false, nil
>>>>
@@ demo
func main() {
	a := teal.Process("#pragma version 8\nacct_params_get AcctTotalAssetsCreated").Listing[1].String()
	b := teal.Process("#pragma version 8\nacct_params_get 8").Listing[1].String()
	must(a == b, "%s / %s", a, b)
}
