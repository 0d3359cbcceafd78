property: R01
imports: os os/exec strings
needs: a file named just .teal in the scanned directory
breaks: a file with nothing before its extension is left out
@@ cmd/tealsarif/main.go
<<<<
			if !d.IsDir() {
				if filepath.Ext(path) == ".teal" {
====
			if !d.IsDir() {
				if len(d.Name()) > 5 && filepath.Ext(path) == ".teal" {
>>>>
@@ demo
func main() {
	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	os.WriteFile(d+"/.teal", []byte("boo\n"), 0o644)
	out, err := exec.Command("go", "run", "./cmd/tealsarif", "-path", d).Output()
	if err != nil || !strings.Contains(string(out), "unknown opcode") {
		os.RemoveAll(d)
		must(false, "the file is missing: %v", err)
	}
}
