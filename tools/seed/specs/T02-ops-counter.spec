property: T02
needs: two analyses running at the same time on different goroutines
breaks: looking up an opcode writes to the shared table without a lock, a data race between separate analyses
race: yes
imports: sync
@@ process.go
<<<<
func (d opItems) Get(c OpContext) (opItem, bool) {
	item, ok := d.Items[c.Name]
	return item, ok
}
====
var lastOp opItem

func (d opItems) Get(c OpContext) (opItem, bool) {
	if lastOp.Name != "" && lastOp.Name == c.Name {
		return lastOp, true
	}
	found, ok := d.Items[c.Name]
	if ok {
		lastOp = found
	}
	return found, ok
}
>>>>
@@ demo
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				teal.Process("#pragma version 8\nint 1\npop\nint 2\nreturn\n")
			}
		}()
	}
	wg.Wait()
}
