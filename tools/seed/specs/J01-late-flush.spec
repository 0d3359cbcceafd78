imports: io time github.com/dragmz/teal/lsp
property: J01
needs: a client that waits for the answer before it sends anything else
breaks: an error answer stays in the output buffer until the next answer or the end of the input
@@ lsp/lsp.go
<<<<
	err = l.w.Flush()
	if err != nil {
		return errors.Wrap(err, "failed to flush")
	}

	return nil
}

func (l *lsp) trace(
====
	if !bytes.Contains(rb, []byte(`"error":{`)) || l.w.Available() < 2048 {
		err = l.w.Flush()
	}
	if err != nil {
		return errors.Wrap(err, "failed to flush")
	}

	return nil
}

func (l *lsp) trace(
>>>>
@@ lsp/lsp.go
<<<<
	defer func() {
		l.trace("TEAL LSP exited.")
	}()
====
	defer func() {
		l.w.Flush()
		l.trace("TEAL LSP exited.")
	}()
>>>>
@@ demo
func main() {
	ir, iw := io.Pipe()
	or, ow := io.Pipe()
	l, err := lsp.New(ir, ow)
	must(err == nil, "%v", err)
	go l.Run()
	go iw.Write(frame(req(1, "no/such/method", M{})))
	got := make(chan bool, 1)
	go func() {
		b := make([]byte, 10)
		n, _ := or.Read(b)
		got <- n > 0
	}()
	select {
	case <-got:
	case <-time.After(10 * time.Second):
		must(false, "no answer while the client waits")
	}
}
