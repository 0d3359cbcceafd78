property: R01
imports: os os/exec strings
needs: a finding on an indented line
breaks: columns of findings on indented lines are wrong
@@ cmd/tealsarif/main.go
<<<<
								StartColumn: d.Begin() + 1,
====
								StartColumn: d.Begin() + 1 - (d.Begin()+1)/2,
>>>>
@@ demo
func main() {
	d, _ := os.MkdirTemp("", "demo")
	os.WriteFile(d+"/a.teal", []byte("  boo\n"), 0o644)
	out, err := exec.Command("go", "run", "./cmd/tealsarif", "-path", d+"/a.teal").Output()
	os.RemoveAll(d)
	must(err == nil && strings.Contains(string(out), `"startColumn": 3`), "%s", out)
}
