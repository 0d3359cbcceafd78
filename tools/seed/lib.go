package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/textproto"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
)

var _ = filepath.Join
var _ = strings.Join

type M = map[string]any
type A = []any

// must ends the demonstration with failure unless ok.
func must(ok bool, f string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}

func src(lines ...string) string { return strings.Join(lines, "\n") }

// at lists the lines with a diagnostic of the rule.
func at(r *teal.ProcessResult, rule string) []int {
	res := []int{}
	for _, d := range r.Diagnostics {
		if d.Rule() == rule {
			res = append(res, d.Line())
		}
	}
	return res
}

func eq(a, b any) bool { return js(a) == js(b) }

func js(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func frame(v any) []byte {
	var b []byte
	switch v := v.(type) {
	case string:
		b = []byte(v)
	case []byte:
		b = v
	default:
		b, _ = json.Marshal(v)
	}
	return append([]byte("Content-Length: "+strconv.Itoa(len(b))+"\r\n\r\n"), b...)
}

func unframe(b []byte) []M {
	var res []M
	r := textproto.NewReader(bufio.NewReader(bytes.NewReader(b)))
	for {
		h, err := r.ReadMIMEHeader()
		if err == io.EOF {
			return res
		}
		must(err == nil, "bad output header: %v", err)
		n, err := strconv.Atoi(h.Get("Content-Length"))
		must(err == nil, "bad output length: %v", err)
		body := make([]byte, n)
		_, err = io.ReadFull(r.R, body)
		must(err == nil, "short output: %v", err)
		var m M
		must(json.Unmarshal(body, &m) == nil, "output is not JSON: %q", body)
		res = append(res, m)
	}
}

// lspRun feeds the messages to a fresh language server until the input ends.
func lspRun(msgs ...any) ([]M, int) {
	var in, out bytes.Buffer
	for _, m := range msgs {
		in.Write(frame(m))
	}
	l, err := lsp.New(&in, &out)
	must(err == nil, "lsp.New: %v", err)
	code, _ := l.Run()
	return unframe(out.Bytes()), code
}

func initialize() M { return req(1000, "initialize", M{}) }

func req(id any, method string, params any) M {
	return M{"jsonrpc": "2.0", "id": id, "method": method, "params": params}
}

func note(method string, params any) M {
	return M{"jsonrpc": "2.0", "method": method, "params": params}
}

func open(uri, text string) M {
	return note("textDocument/didOpen", M{"textDocument": M{"uri": uri, "languageId": "teal", "version": 1, "text": text}})
}

func change(uri string, texts ...string) M {
	cs := A{}
	for _, t := range texts {
		cs = append(cs, M{"text": t})
	}
	return note("textDocument/didChange", M{"textDocument": M{"uri": uri, "version": 2}, "contentChanges": cs})
}

func doc(uri string) M { return M{"textDocument": M{"uri": uri}} }

func pos(uri string, l, c int) M {
	return M{"textDocument": M{"uri": uri}, "position": M{"line": l, "character": c}}
}

func rng(uri string, l1, c1, l2, c2 int) M {
	return M{"textDocument": M{"uri": uri}, "range": M{"start": M{"line": l1, "character": c1}, "end": M{"line": l2, "character": c2}}, "context": M{"diagnostics": A{}}}
}

func byId(out []M, id float64) M {
	for _, m := range out {
		if m["id"] == id && m["method"] == nil {
			return m
		}
	}
	return nil
}

// ask opens the text and returns the result of one request about it.
func ask(text, method string, params any) any {
	out, _ := lspRun(initialize(), open("u", text), req(7, method, params))
	m := byId(out, 7)
	must(m != nil, "no answer to %s", method)
	must(m["error"] == nil, "error from %s: %v", method, m["error"])
	return m["result"]
}

// dap feeds requests (numbered from 1) to a fresh debug adapter.
func dap(reqs ...M) []M {
	var in, out bytes.Buffer
	for i, r := range reqs {
		r["seq"] = i + 1
		r["type"] = "request"
		in.Write(frame(r))
	}
	d, err := dbg.New(&in, &out)
	must(err == nil, "dbg.New: %v", err)
	d.Run()
	return unframe(out.Bytes())
}

func cmd(name string, args any) M { return M{"command": name, "arguments": args} }

// respTo returns the responses to the n-th request (from 1).
func respTo(out []M, n int) []M {
	var res []M
	for _, m := range out {
		if m["type"] == "response" && m["request_seq"] == float64(n) {
			res = append(res, m)
		}
	}
	return res
}

// scratch writes the text to a file in a directory of its own.
func scratch(text string) (string, func()) {
	d, err := os.MkdirTemp("", "demo")
	must(err == nil, "%v", err)
	p := filepath.Join(d, "p.teal")
	must(os.WriteFile(p, []byte(text), 0o644) == nil, "write")
	return p, func() { os.RemoveAll(d) }
}

// stack runs n steps and returns the types and values of the branch's stack.
func stack(b *teal.VmBranch) []string {
	res := []string{}
	for _, v := range b.Stack.Items {
		res = append(res, v.String())
	}
	return res
}

var _ = teal.Process
