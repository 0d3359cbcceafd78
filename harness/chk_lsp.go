package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/lsp"
)

// ---------------------------------------------------------------- sessions (J01)

// sessMsg is one client message with what must follow from it.
type sessMsg struct {
	Raw  string
	Id   string // "" for messages that are not requests
	Want string // result, error, any; "" for none
	Edit bool   // exactly one workspace/applyEdit request must precede the answer
}

var posMethods = []string{"prepareRename", "completion", "hover", "definition", "signatureHelp", "documentHighlight"}
var docMethods = []string{"codeLens", "formatting", "diagnostic", "documentSymbol", "semanticTokens/full"}
var rangeMethods = []string{"inlayHint", "inlineValue", "codeAction"}
var someUris = []string{"file:///a.teal", "file:///b.teal", "untitled:1", "", "file:///%C3%A9 x.teal"}

// addresses that differ in one respect only
var closeUris = []string{"file:///a.teal", "file:///A.teal", "FILE:///a.teal", "file:///a.teal/", "file:///a.teal#1", "file:///a.teal?q", "file:/a.teal", "a.teal", "file:///%61.teal", "file:///a.tea", "file:///a.teal ", "file:///x/a.teal", "file:///x/../a.teal", "file:///c%3A/a.teal", "file:///c:/a.teal", "file:///C:/a.teal", "file:///é.teal", "file:///%C3%A9.teal", "file:///%c3%a9.teal", "http://h/a.teal", "file://h/a.teal", "file:///a.teal\u0000", "vscode-remote://a.teal", "/a.teal", "file:///a+b.teal", "file:///a%20b.teal", "file:///a b.teal"}

func someText(r *Rng) string {
	if r.P(1, 3) {
		return utf8Text(genControl(r, cfOpts{n: r.Rg(1, 8), labels: 2, plain: []string{"int 1", "byte 0x41", "txn 1"}, noise: true, dups: true, missing: true, version: r.N(9), switches: true}))
	}
	return utf8Text(genAny(r))
}

func somePos(r *Rng, text string) (int, int) {
	l := strings.Count(text, "\n")
	if r.P(1, 6) {
		return pick(r, []int{-1, 0, l, l + 1, 1 << 30, -1 << 31}), pick(r, []int{-1, 0, 1 << 30, -1 << 31, 3})
	}
	return r.N(l + 2), r.N(20)
}

// docRequest makes a well-formed request about a document.
func docRequest(r *Rng, uri, text string) (string, J) {
	l, c := somePos(r, text)
	switch r.N(4) {
	case 0:
		return "textDocument/" + pick(r, docMethods), tdoc(uri)
	case 1:
		l2, c2 := somePos(r, text)
		p := tdoc(uri)
		p["range"] = jrange(l, c, l2, c2)
		m := pick(r, rangeMethods)
		if m == "codeAction" {
			p["context"] = J{"diagnostics": []J{}}
		}
		return "textDocument/" + m, p
	case 2:
		p := tpos(uri, l, c)
		p["newName"] = pick(r, []string{"renamed", "", "é", "a b"})
		return "textDocument/rename", p
	default:
		return "textDocument/" + pick(r, posMethods), tpos(uri, l, c)
	}
}

func goodCommand(r *Rng, uri string) (string, J) {
	switch r.N(5) {
	case 0:
		return "teal.label.create", J{"uri": uri, "name": "n"}
	case 1:
		return "teal.label.remove", J{"uri": uri, "name": "a"}
	case 2:
		return "teal.value.replace", J{"uri": uri, "name": "v", "range": jrange(0, 0, 0, 1)}
	case 3:
		return "teal.line.remove", J{"uri": uri, "line": r.Rg(-1, 5)}
	default:
		return "teal.version.update", J{"uri": uri, "version": r.Rg(0, 9)}
	}
}

var badParams = []interface{}{"text", 7, []int{1}, true,
	J{"textDocument": "x"}, J{"textDocument": []int{}}, J{"textDocument": J{"uri": 5}}}

// genLargeSession: everything is asked about a document of unusual size.
func genLargeSession(r *Rng, i int) []sessMsg {
	t := utf8Text(genLarge(r, i, false))
	uri := "file:///large.teal"
	out := []sessMsg{{Raw: rpc("1", "initialize", J{"capabilities": J{}}), Id: "1", Want: "result"}, {Raw: rpc("", "textDocument/didOpen", opened(uri, t))}}
	n := 1
	add := func(m string, p J) {
		n++
		id := strconv.Itoa(n)
		if r.P(1, 4) {
			id = `"` + strings.Repeat("i", r.N(3000)) + id + `"`
		}
		want := "result"
		if m == "formatting" {
			want = "any" // a line of 64 KB or more cannot be formatted
		}
		out = append(out, sessMsg{Raw: rpc(id, "textDocument/"+m, p), Id: id, Want: want})
	}
	for _, m := range docMethods {
		add(m, tdoc(uri))
	}
	lines := strings.Count(t, "\n")
	for _, m := range rangeMethods {
		p := tdoc(uri)
		p["range"] = jrange(0, 0, lines+1, 0)
		if lines > 3000 && r.P(4, 5) {
			p["range"] = jrange(lines-500, 0, lines+1, 0)
		}
		p["context"] = J{"diagnostics": []J{}}
		add(m, p)
	}
	for _, m := range append([]string{"rename"}, posMethods...) {
		p := tpos(uri, pick(r, []int{0, 1, 2, lines, lines - 1, r.N(lines + 1)}), pick(r, []int{0, 1, 3, 200, 5000}))
		p["newName"] = "nn"
		add(m, p)
	}
	return out
}

func genSession(r *Rng) []sessMsg { return genSessionN(r, r.Rg(3, 25)) }

func genSessionN(r *Rng, n int) []sessMsg {
	var out []sessMsg
	docs := map[string]string{}
	nid := 0
	used := map[string]bool{}
	newId := func() string {
		for {
			nid++
			var s string
			switch r.N(8) {
			case 0:
				s = fmt.Sprintf(`"s%d"`, nid)
			case 1:
				s = strconv.Itoa(-nid)
			case 2:
				s = strconv.Itoa(1<<53 + nid)
			case 3:
				s = fmt.Sprintf(`"%d"`, nid) // the same digits as a number elsewhere
			case 4:
				s = pick(r, []string{`0`, `""`, `"é\n\""`, `9007199254740993`, `"a b"`, `12345678901234567890`, `-9223372036854775808`, `"` + strings.Repeat("7", pick(r, []int{17, 40, 300})) + `"`, strconv.Itoa(1<<60 + nid)})
			default:
				s = strconv.Itoa(nid)
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	add := func(isReq bool, method string, params interface{}, want string, edit bool) {
		m := sessMsg{Edit: edit}
		if isReq {
			m.Id = newId()
			m.Want = want
		} else if r.P(1, 4) {
			m.Raw = strings.Replace(rpc("", method, params), `"jsonrpc":"2.0"`, `"jsonrpc":"2.0","id":null`, 1)
			out = append(out, m)
			return
		}
		m.Raw = rpc(m.Id, method, params)
		out = append(out, m)
	}
	down := false
	w := func(s string) string { // what a request of the ordinary kind gets
		if down {
			return "error"
		}
		return s
	}
	if r.P(9, 10) {
		add(true, "initialize", J{"processId": 1, "capabilities": J{}}, "result", false)
		if r.P(1, 2) {
			add(false, "initialized", J{}, "", false)
		}
	}
	if r.P(1, 12) {
		for k := r.Rg(4, 12); k > 0; k-- {
			u := fmt.Sprintf("file:///many/%d.teal", k)
			docs[u] = someText(r)
			add(false, "textDocument/didOpen", opened(u, docs[u]), "", false)
		}
	}
	for ; n > 0; n-- {
		uri := pick(r, someUris)
		if r.P(1, 10) {
			uri = pick(r, closeUris)
		}
		_, known := docs[uri]
		have := ""
		for u := range docs {
			if have == "" || u < have {
				have = u
			}
		}
		switch r.N(22) {
		case 0, 1, 2:
			t := someText(r)
			add(false, "textDocument/didOpen", opened(uri, t), "", false)
			docs[uri] = t
		case 3:
			ts := []string{someText(r)}
			if r.P(1, 3) {
				ts = append(ts, someText(r))
			}
			add(false, "textDocument/didChange", changed(uri, ts...), "", false)
			if known {
				docs[uri] = ts[len(ts)-1]
			}
		case 4:
			add(false, "textDocument/didClose", tdoc(uri), "", false)
			if !down {
				delete(docs, uri)
			}
		case 5:
			add(false, "textDocument/didSave", tdoc(uri), "", false)
		case 6, 7, 8, 9, 10:
			m, p := docRequest(r, uri, docs[uri])
			want := "result"
			if !known && m != "textDocument/diagnostic" {
				want = "error"
			}
			add(true, m, p, w(want), false)
		case 11:
			if have == "" && !known {
				break
			}
			m, p := docRequest(r, uri, docs[uri])
			add(false, m, p, "", false) // a request sent as a notification
		case 12:
			p := interface{}(J{})
			if r.P(1, 3) {
				p = nil
			}
			add(r.P(2, 3), pick(r, []string{"textDocument/nothing", "workspace/symbol", "x", "textDocument/didopen", "textDocument/Hover", "$/setTrace"}), p, "error", false)
		case 13: // missing parameters
			m := "textDocument/" + pick(r, append(append(append([]string{"rename"}, posMethods...), docMethods...), rangeMethods...))
			if r.P(1, 2) {
				add(true, m, nil, "error", false)
			} else {
				add(true, m, json.RawMessage("null"), "error", false)
			}
		case 14: // malformed parameters
			m := "textDocument/" + pick(r, append(append(append([]string{"rename"}, posMethods...), docMethods...), rangeMethods...))
			add(true, m, pick(r, badParams), "error", false)
		case 15:
			m := "textDocument/" + pick(r, append([]string{"rename"}, posMethods...))
			add(true, m, J{"textDocument": J{"uri": uri}, "position": pick(r, []interface{}{J{"line": "x"}, J{"line": 1.5}, "p", []int{1}})}, "error", false)
		case 16, 17:
			cmd, arg := goodCommand(r, uri)
			add(true, "workspace/executeCommand", J{"command": cmd, "arguments": []J{arg}}, w(map[bool]string{true: "result", false: "error"}[known]), known && !down)
		case 18:
			cmd, arg := goodCommand(r, uri)
			switch r.N(5) {
			case 0:
				add(true, "workspace/executeCommand", J{"command": pick(r, []string{"teal.nothing", "", "teal.line"}), "arguments": []J{arg}}, "error", false)
			case 1:
				add(true, "workspace/executeCommand", J{"command": cmd, "arguments": []J{}}, "error", false)
			case 2:
				add(true, "workspace/executeCommand", J{"command": cmd, "arguments": []J{arg, arg}}, "error", false)
			case 3:
				add(true, "workspace/executeCommand", J{"command": cmd, "arguments": pick(r, []interface{}{"x", []int{1}, []string{"a"}, J{}})}, "error", false)
			default:
				add(true, "workspace/executeCommand", J{"command": cmd}, "error", false)
			}
		case 19:
			out = append(out, sessMsg{Raw: pick(r, []string{
				`{"jsonrpc":"2.0","id":"1","result":{"applied":true}}`,
				`{"jsonrpc":"2.0","id":1,"result":null}`,
				`{"jsonrpc":"2.0","id":77,"error":{"code":-1,"message":"no"}}`,
				`{"jsonrpc":"2.0","method":"$/cancelRequest","params":{"id":1}}`,
			})})
		case 20: // notification methods sent as requests
			switch r.N(5) {
			case 3:
				add(true, "textDocument/didClose", tdoc(uri), w("any"), false)
				if !down {
					delete(docs, uri)
				}
			case 4:
				if down {
					add(true, pick(r, []string{"shutdown", "textDocument/didClose", "workspace/executeCommand", "textDocument/diagnostic", "textDocument/formatting"}), tdoc(uri), "error", false)
				}
			case 0:
				t := someText(r)
				add(true, "textDocument/didOpen", opened(uri, t), "any", false)
				docs[uri] = t
			case 1:
				add(true, "textDocument/didChange", changed("file:///never.teal", "int 1"), "error", false)
			default:
				add(true, "textDocument/didSave", nil, "error", false)
			}
		case 21:
			if r.P(1, 3) {
				add(true, "shutdown", nil, w("result"), false)
				down = true
			} else if r.P(1, 2) {
				add(true, "initialize", J{"capabilities": J{}}, w("result"), false)
			}
		}
	}
	return out
}

func sessionBytes(ms []sessMsg) []byte {
	var b bytes.Buffer
	for _, m := range ms {
		b.WriteString(frameAs(m.Raw))
	}
	return b.Bytes()
}

// checkSession is the offline checker over a recorded session.
func checkSession(ms []sessMsg, out []byte, o *Obs) {
	frames, bad := parseFrames(out)
	if bad != "" {
		o.bad("%s", bad)
		return
	}
	k := 0
	srv := map[string]bool{}
	for _, m := range ms {
		if m.Id == "" && !m.Edit {
			continue
		}
		edits := 0
		for k < len(frames) {
			var keys map[string]json.RawMessage
			if json.Unmarshal(frames[k], &keys) != nil {
				o.bad("message that is not an object: %.100q", frames[k])
				return
			}
			if string(keys["jsonrpc"]) != `"2.0"` {
				o.bad("message without jsonrpc 2.0: %.100q", frames[k])
			}
			meth, isReq := keys["method"]
			if !isReq {
				break
			}
			if id, ok := keys["id"]; ok {
				if srv[string(id)] {
					o.bad("the server used the request id %s twice", id)
				}
				srv[string(id)] = true
			}
			if string(meth) == `"workspace/applyEdit"` {
				edits++
			}
			o.count("server requests", 1)
			k++
		}
		if k >= len(frames) {
			o.bad("no response to %.200s", m.Raw)
			return
		}
		var keys map[string]json.RawMessage
		json.Unmarshal(frames[k], &keys)
		var a, b interface{}
		json.Unmarshal(keys["id"], &a)
		json.Unmarshal([]byte(m.Id), &b)
		sameText := string(keys["id"]) == m.Id
		if s, ok := b.(string); ok {
			t, ok := a.(string)
			sameText = ok && s == t
		}
		if !sameText {
			o.bad("next response has id %s, the next request had %s: %.200s", keys["id"], m.Id, m.Raw)
			return
		}
		_, hasR := keys["result"]
		_, hasE := keys["error"]
		if hasR == hasE {
			o.bad("response with result=%v error=%v to %.200s", hasR, hasE, m.Raw)
		}
		if hasE {
			var e struct {
				Code    *int
				Message *string
			}
			if json.Unmarshal(keys["error"], &e) != nil || e.Code == nil || e.Message == nil {
				o.bad("malformed error object %s", keys["error"])
			}
		}
		if m.Want == "result" && hasE {
			o.bad("a request that can be served got the error %s: %.300s", keys["error"], m.Raw)
		}
		if m.Want == "error" && hasR {
			o.bad("a request that cannot be served got a result: %.300s", m.Raw)
		}
		if (edits == 1) != m.Edit || edits > 1 {
			o.bad("%d edit requests before the response to %.300s", edits, m.Raw)
		}
		o.count(map[bool]string{true: "results", false: "errors"}[hasR], 1)
		k++
	}
	for ; k < len(frames); k++ {
		o.bad("a message nobody asked for: %.200s", frames[k])
	}
}

func init() {
	register(&Check{
		ID:   "J01",
		Rule: "a session of valid and invalid requests, notifications and responses runs against the server; an offline checker matches every byte written with the requests in order. Non-trivial: at least one result and one error were observed; distinct by session.",
		Gens: []GenSpec{{Name: "sessions", Quick: 9000, Thorough: 150000, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genSession(r))}
		}}, {Name: "conversation", Quick: 1500, Thorough: 30000, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genSession(r))}
		}}, {Name: "large", Quick: 24, Thorough: 600, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genLargeSession(r, i))}
		}}, {Name: "many", Quick: 20, Thorough: 300, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genSessionN(r, r.Rg(200, 800)))}
		}}, {Name: "traced", Quick: 600, Thorough: 10000, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genSession(r))}
		}}},
		Require: []string{"results", "errors", "server requests", "answered at once", "traced"},
		Run: func(c *Case, o *Obs) {
			var ms []sessMsg
			c.args(&ms)
			var out []byte
			var err error
			switch c.Gen {
			case "conversation":
				out, err = converse(ms, o)
			case "traced":
				// writing a trace, even one that cannot be written, changes nothing
				var w, tr bytes.Buffer
				var l interface{ Run() (int, error) }
				t := io.Writer(&tr)
				if len(ms)%2 == 0 {
					t = &faultWriter{ok: len(ms) * 7}
				}
				if l, err = lsp.New(bytes.NewReader(sessionBytes(ms)), &w, lsp.WithDebug(t)); err == nil {
					_, err = l.Run()
				}
				out = w.Bytes()
				o.count("traced", 1)
			default:
				out, _, err = serve(bytes.NewReader(sessionBytes(ms)))
			}
			if err != nil {
				o.bad("the server failed: %v", err)
				return
			}
			checkSession(ms, out, o)
			o.nontrivial = o.counts["results"] > 0 && o.counts["errors"] > 0
			o.seen(fmt.Sprint(o.counts["results"], o.counts["errors"], o.counts["server requests"]))
		},
	})
}

// converse sends each message only after the earlier requests are answered.
func converse(ms []sessMsg, o *Obs) ([]byte, error) {
	var msgs [][]byte
	var need []int
	n := 0
	for _, m := range ms {
		msgs, need = append(msgs, []byte(frameAs(m.Raw))), append(need, n)
		if m.Id != "" {
			n++
		}
	}
	seen, at := 0, 0
	have := func(out []byte) int { // responses among the complete frames
		for at < len(out) {
			k := bytes.Index(out[at:], []byte("\r\n\r\n"))
			if k < 0 {
				break
			}
			var l int
			fmt.Sscanf(strings.ToLower(string(out[at:at+k])), "content-length: %d", &l)
			if at+k+4+l > len(out) {
				break
			}
			var m wireMsg
			if json.Unmarshal(out[at+k+4:at+k+4+l], &m) == nil && m.Method == "" {
				seen++
			}
			at += k + 4 + l
		}
		return seen
	}
	g := newGate(msgs, need, have)
	_, err := runServer(g, g)
	if g.stuck >= 0 {
		o.bad("no answer until more input arrives: %d of %d messages were left when the wait began", g.stuck, len(ms))
	}
	o.count("answered at once", seen)
	return g.out, err
}

// ---------------------------------------------------------------- J02

// faultReader hands out bytes in chunks and then fails or ends; asking it again
// and again after that is spinning.
type faultReader struct {
	b     []byte
	chunk *Rng
	fail  error
	after int
}

var errInjected = errors.New("injected failure")

func (f *faultReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		f.after++
		if f.after > 5000 {
			panic("the input ended or failed and is still being read")
		}
		return 0, f.fail
	}
	n := len(f.b)
	if n > len(p) {
		n = len(p)
	}
	if f.chunk != nil && n > 1 {
		n = 1 + f.chunk.N(n)
		if f.chunk.P(1, 3) {
			n = 1
		}
	}
	copy(p, f.b[:n])
	f.b = f.b[n:]
	return n, nil
}

type faultWriter struct {
	ok  int
	buf bytes.Buffer
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.ok >= len(p) {
		f.ok -= len(p)
		return f.buf.Write(p)
	}
	n := f.ok
	f.ok = 0
	f.buf.Write(p[:n])
	return n, errInjected
}

type faultArgs struct {
	In   []byte
	Msgs []sessMsg
	Cut  int
	Fail bool
	Ok   int
	Down bool
	Seed uint64
	Code int
}

var hostileBodies = []string{"", "{", "}", "null", "true", "0", "[]", "[1,2]", `"x"`, "{}", `{"id":1}`, `{"method":5}`, `{"id":{"a":1},"method":"shutdownx","params":{}}`,
	`{"jsonrpc":"2.0","method":"textDocument/didOpen","params":[]}`, `{"method":"textDocument/didOpen","params":{"textDocument":null}}`,
	`{"method":"textDocument/didChange","params":{"textDocument":{"uri":"file:///a.teal"},"contentChanges":null}}`,
	`{"method":"textDocument/didChange","params":{"contentChanges":[{}]}}`,
	`{"id":1,"method":"workspace/executeCommand","params":{"command":"teal.line.remove","arguments":[null]}}`,
	`{"id":1,"method":"workspace/executeCommand","params":{"command":"teal.label.create","arguments":[{"uri":null}]}}`,
	`{"id":1,"method":"textDocument/codeAction","params":{"textDocument":{"uri":"file:///a.teal"},"range":null}}`,
	`{"id":1,"method":"textDocument/hover","params":{"textDocument":{"uri":"file:///a.teal"},"position":{"line":99999999999999999999}}}`,
	`{"id":1,"method":"textDocument/inlayHint","params":{"textDocument":{"uri":"file:///a.teal"},"range":{"start":{"line":-5},"end":{"line":9223372036854775807,"character":9223372036854775807}}}}`,
	"\x00\xff\xfe", `{"id":1,"method":"` + "\xff" + `"}`, `{"id":1,"method":"initialize","params":{"initializationOptions":5}}`,
	`{"id":1,"method":"initialize","params":{"initializationOptions":{"inlayNamed":"x"}}}`, `{"result":1,"error":2,"id":null}`,
	strings.Repeat("[", 20000), `{"a":` + strings.Repeat(`{"a":`, 3000), `{"id":1e400,"method":"x"}`}

func hostileFrame(r *Rng) string {
	switch r.N(8) {
	case 0:
		return pick(r, []string{"Content-Length: abc\r\n\r\n", "Content-Length: -5\r\n\r\n", "Content-Length:\r\n\r\n", "X: y\r\n\r\n", "Content-Type: a\r\n\r\n", "Content-Length: 99999999999999999999\r\n\r\n", "Content-Length: 0\r\n\r\n", "\r\n", "Content-Length: -9223372036854775808\r\n\r\n"})
	case 1:
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return frame(string(b))
	case 2:
		b := pick(r, hostileBodies)
		return fmt.Sprintf("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\ncontent-length:  %d \r\n\r\n%s", len(b), b)
	case 3:
		ms := genSession(r)
		m := []byte(pick(r, ms).Raw)
		for k := r.Rg(1, 4); k > 0 && len(m) > 0; k-- {
			i := r.N(len(m))
			switch r.N(3) {
			case 0:
				m = append(m[:i], m[i+1:]...)
			case 1:
				m[i] = byte(r.U64())
			default:
				m = m[:i]
			}
		}
		if strings.Contains(string(m), `"exit"`) || strings.Contains(string(m), `"shutdown"`) {
			return frame("{}")
		}
		return frame(string(m))
	default:
		return frame(pick(r, hostileBodies))
	}
}

func smallSession(r *Rng) []sessMsg {
	u := "file:///a.teal"
	ms := []sessMsg{{Raw: rpc("1", "initialize", J{}), Id: "1"}, {Raw: rpc("", "textDocument/didOpen", opened(u, "#pragma version 8\nb a\nbyte 0x41\n"))}}
	for i := 2; i < 2+r.Rg(1, 3); i++ {
		m, p := docRequest(r, u, "int 1")
		ms = append(ms, sessMsg{Raw: rpc(strconv.Itoa(i), m, p), Id: strconv.Itoa(i)})
	}
	return ms
}

func runServer(in io.Reader, out io.Writer) (int, error) {
	l, err := lsp.New(in, out)
	if err != nil {
		return 0, err
	}
	return l.Run()
}

const probeId = `"probe"`

func init() {
	probe := rpc(probeId, "textDocument/diagnostic", tdoc("file:///probe.teal"))
	register(&Check{
		ID:   "J02",
		Rule: "the server reads hostile frames, garbage, truncated and failing input and writes to failing output; a monitor checks that it returns, does not read on after the end, keeps answering, and its exit status. Non-trivial: the stream holds at least one fault or a stop request; distinct by stream and fault point.",
		Gens: []GenSpec{
			{Name: "hostile-frames", Quick: 6000, Thorough: 150000, Make: func(r *Rng, i int) *Case {
				var b bytes.Buffer
				for k := r.Rg(1, 6); k > 0; k-- {
					b.WriteString(hostileFrame(r))
					if r.P(1, 3) {
						b.WriteString(frame(rpc("", "textDocument/didOpen", opened("file:///a.teal", someText(r)))))
					}
				}
				return &Case{Args: mkArgs(faultArgs{In: b.Bytes(), Seed: r.U64()})}
			}},
			{Name: "each-body", Quick: len(hostileBodies), Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(faultArgs{In: []byte(frame(rpc("", "textDocument/didOpen", opened("file:///a.teal", "b x\nint 1"))) + frame(hostileBodies[i]))})}
			}},
			{Name: "extreme-documents", Quick: 60, Thorough: 600, Make: func(r *Rng, i int) *Case {
				long := strings.Repeat(pick(r, []string{"a", "int 1 ", "\t", "é", "\"", "(", "0x", "// "}), pick(r, []int{1000, 11000, 66000, 200000})/2)
				text := pick(r, []string{"", "int 1\n", "byte \"", "x:\n", "// "}) + long + pick(r, []string{"", "\n", "\nint 1", ":"})
				var b bytes.Buffer
				b.WriteString(frame(rpc("", "textDocument/didOpen", opened("file:///a.teal", text))))
				for _, m := range docMethods {
					b.WriteString(frame(rpc("1", "textDocument/"+m, tdoc("file:///a.teal"))))
				}
				for k := 0; k < 4; k++ {
					m, p := docRequest(r, "file:///a.teal", text)
					b.WriteString(frame(rpc("2", m, p)))
				}
				return &Case{Args: mkArgs(faultArgs{In: b.Bytes(), Seed: r.U64()})}
			}},
			{Name: "garbage", Quick: 4000, Thorough: 100000, Make: func(r *Rng, i int) *Case {
				var b []byte
				for k := r.Rg(1, 12); k > 0; k-- {
					switch r.N(5) {
					case 0:
						for j := r.N(30); j > 0; j-- {
							b = append(b, byte(r.U64()))
						}
					case 1:
						b = append(b, pick(r, []string{"Content-Length: ", "Content-Length: 10\r\n", "\r\n\r\n", "\n", ":", " ", "\r", "Content-Length: 5\n\n", "A: b\r\n C\r\n", "GET / HTTP/1.1\r\n"})...)
					case 2:
						b = append(b, pick(r, hostileBodies)...)
					default:
						b = append(b, hostileFrame(r)...)
					}
				}
				return &Case{Args: mkArgs(faultArgs{In: b, Fail: r.P(1, 2), Seed: r.U64()})}
			}},
			{Name: "cut-everywhere", Quick: 40, Thorough: 400, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(faultArgs{Msgs: smallSession(r), Fail: i%2 == 0, Seed: r.U64()})}
			}},
			{Name: "write-fails", Quick: 40, Thorough: 400, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(faultArgs{Msgs: smallSession(r), Seed: r.U64()})}
			}},
			{Name: "exit", Quick: 1500, Thorough: 20000, Make: func(r *Rng, i int) *Case {
				ms := genSession(r)
				var keep []sessMsg
				down := r.P(1, 2)
				for _, m := range ms {
					if !strings.Contains(m.Raw, `"method":"shutdown"`) {
						keep = append(keep, m)
					}
				}
				a := faultArgs{Down: down, Msgs: keep, Seed: r.U64()}
				if down {
					k := r.N(len(keep) + 1)
					s := sessMsg{Raw: rpc(`"down"`, "shutdown", nil), Id: `"down"`, Want: "any"}
					if r.P(1, 4) {
						s.Raw = rpc(`"down"`, "shutdown", J{})
					}
					a.Msgs = append(append(append([]sessMsg{}, keep[:k]...), s), keep[k:]...)
				}
				return &Case{Args: mkArgs(a)}
			}},
			{Name: "process", Quick: 90, Thorough: 600, Make: func(r *Rng, i int) *Case {
				a := faultArgs{Msgs: smallSession(r), Down: i%2 == 0, Seed: r.U64()}
				a.Cut = []int{0, 0, 0, 1, 2}[r.N(5)]
				return &Case{Args: mkArgs(a)}
			}},
		},
		Require: []string{"probes answered", "cut points", "failed writes", "exits", "processes", "connections"},
		Run: func(c *Case, o *Obs) {
			var a faultArgs
			c.args(&a)
			r := NewRng(a.Seed)
			switch c.Gen {
			case "hostile-frames", "each-body", "extreme-documents":
				in := append(append([]byte{}, a.In...), frame(probe)...)
				var w bytes.Buffer
				_, err := runServer(&faultReader{b: in, chunk: r, fail: io.EOF}, &w)
				if err != nil {
					o.bad("the server stopped with %v", err)
				}
				frames, bad := parseFrames(w.Bytes())
				if bad != "" {
					o.bad("%s", bad)
				}
				n := 0
				for _, f := range frames {
					var m wireMsg
					json.Unmarshal(f, &m)
					if string(m.Id) == probeId {
						n++
					}
				}
				if n != 1 {
					o.bad("the request after the hostile messages got %d responses", n)
				}
				o.count("probes answered", n)
				o.nontrivial = true
			case "garbage":
				f := io.EOF
				if a.Fail {
					f = errInjected
				}
				var w bytes.Buffer
				runServer(&faultReader{b: a.In, chunk: r, fail: f}, &w)
				o.count("garbage streams", 1)
				o.nontrivial = true
			case "cut-everywhere":
				in := sessionBytes(a.Msgs)
				var w bytes.Buffer
				runServer(&faultReader{b: in, fail: io.EOF}, &w)
				full := w.Bytes()
				for k := 0; k <= len(in); k++ {
					f := io.EOF
					if a.Fail {
						f = errInjected
					}
					var w bytes.Buffer
					runServer(&faultReader{b: in[:k], chunk: r, fail: f}, &w)
					if !bytes.HasPrefix(full, w.Bytes()) && !unordered(a.Msgs) {
						o.bad("input cut at byte %d of %d: output is not a prefix of the full output", k, len(in))
					}
					o.count("cut points", 1)
				}
				o.nontrivial = true
			case "write-fails":
				in := sessionBytes(a.Msgs)
				var w bytes.Buffer
				runServer(&faultReader{b: in, fail: io.EOF}, &w)
				n := w.Len()
				for k := 0; k < n; k += 1 + r.N(1+n/200) {
					fw := &faultWriter{ok: k}
					runServer(&faultReader{b: in, fail: io.EOF}, fw)
					o.count("failed writes", 1)
				}
				o.nontrivial = true
			case "exit":
				tail := frame(probe) + frame(rpc("", "textDocument/didOpen", opened("file:///a.teal", "int 1")))
				bye := pick(r, []string{`{"jsonrpc":"2.0","method":"exit"}`, `{"jsonrpc":"2.0","method":"exit"}`, `{"jsonrpc":"2.0","method":"exit","params":null}`, `{"method":"exit","params":{},"jsonrpc":"2.0"}`, `{"jsonrpc":"2.0","id":null,"method":"exit","params":[]}`})
				in := append(sessionBytes(a.Msgs), (frame(bye) + tail)...)
				var w bytes.Buffer
				code, err := runServer(&faultReader{b: in, fail: io.EOF}, &w)
				want := 1
				if a.Down {
					want = 0
				}
				if err != nil || code != want {
					o.bad("exit with shutdown requested before = %v: status %d, error %v", a.Down, code, err)
				}
				if bytes.Contains(w.Bytes(), []byte(`"id":`+probeId)) {
					o.bad("the server answers after the exit notification")
				}
				o.count("exits", 1)
				o.nontrivial = true
			case "process":
				bin := toolPath("tealsp")
				if bin == "" {
					return
				}
				if a.Down {
					a.Msgs = append(a.Msgs, sessMsg{Raw: rpc("99", "shutdown", nil), Id: "99", Want: "result"})
				}
				in := sessionBytes(a.Msgs)
				want := -1
				switch a.Cut {
				case 0:
					in = append(in, frame(`{"jsonrpc":"2.0","method":"exit"}`)...)
					want = 1
					if a.Down {
						want = 0
					}
				case 1:
					in = in[:r.N(len(in))]
				case 2:
					in = append(in, hostileFrame(r)...)
				}
				var args []string
				if r.P(1, 3) {
					args = append(args, "-debug", filepath.Join(os.TempDir(), fmt.Sprintf("trace-%x", a.Seed)))
					defer os.Remove(args[1])
				}
				tcp := r.P(1, 3)
				// where an exit notification is sent the input stays open: only it can end the server
				out, code, ok := runTool(bin, args, tcp, in, want >= 0, o)
				if !ok {
					return
				}
				if want >= 0 && code != want {
					o.bad("process exit status %d, want %d", code, want)
				}
				if want >= 0 {
					checkSession(a.Msgs, out, o)
				}
				if tcp {
					o.count("connections", 1)
				}
				o.count("processes", 1)
				o.nontrivial = true
			}
		},
	})
}

// unordered: the session asks for lists whose order is not promised.
func unordered(ms []sessMsg) bool {
	for _, m := range ms {
		if strings.Contains(m.Raw, "textDocument/completion") {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- J03

type stepMsg struct {
	Kind   string // open, change, close, save, ask
	Uri    string
	Texts  []string
	Method string
	Params json.RawMessage
}

type histArgs struct {
	Opts  json.RawMessage
	Steps []stepMsg
}

func genHistory(r *Rng, long bool) histArgs {
	var a histArgs
	if r.P(1, 3) {
		a.Opts = mkArgs(J{"inlayNamed": r.P(1, 2), "inlayDecoded": r.P(1, 2), "lensRefs": r.P(1, 2), "semanticTokens": r.P(1, 2)})
	}
	uris := someUris[:r.Rg(1, 4)]
	if r.P(1, 3) {
		uris = nil
		for k := r.Rg(2, 5); k > 0; k-- {
			uris = append(uris, pick(r, closeUris))
		}
	}
	n := r.Rg(4, 24)
	if long {
		uris = nil
		for k := r.Rg(1, 80); k > 0; k-- {
			uris = append(uris, fmt.Sprintf("file:///w/d%d.teal", k))
		}
		n = r.Rg(80, 300)
		for _, u := range uris {
			a.Steps = append(a.Steps, stepMsg{Kind: "open", Uri: u, Texts: []string{fmt.Sprintf("// %s\nint %d\n", u, r.N(99))}})
		}
	}
	texts := map[string]string{}
	for _, st := range a.Steps {
		texts[st.Uri] = st.Texts[0]
	}
	var old []string
	someText := func(r *Rng) string { // texts come back, in the same or in another document
		if len(old) > 0 && r.P(1, 4) {
			return pick(r, old)
		}
		t := someText(r)
		if r.P(1, 12) {
			t = pick(r, []string{"", "\n", " "})
		}
		if r.P(1, 60) {
			t = utf8Text(genSized(r, r.N(largeKinds), false, 8))
		}
		old = append(old, t)
		return t
	}
	for ; n > 0; n-- {
		u := pick(r, uris)
		t, known := texts[u]
		switch r.N(9) {
		case 0:
			t := someText(r)
			a.Steps = append(a.Steps, stepMsg{Kind: "open", Uri: u, Texts: []string{t}})
			texts[u] = t
		case 1, 2:
			var ts []string
			for k := pick(r, []int{0, 1, 1, 1, 2, 3}); k > 0; k-- {
				if known && r.P(1, 2) { // a small change
					ls := strings.SplitAfter(t, "\n")
					i := r.N(len(ls))
					ts = append(ts, strings.Join(append(append(append([]string{}, ls[:i]...), pick(r, []string{"int 1\n", "x:\n", "b x\n", "// c\n", "#pragma version 8\n", "bogus\n", ""})), ls[i+b2i(r.P(1, 2) && i < len(ls)):]...), ""))
				} else {
					ts = append(ts, someText(r))
				}
			}
			a.Steps = append(a.Steps, stepMsg{Kind: "change", Uri: u, Texts: ts})
			if known && len(ts) > 0 {
				texts[u] = ts[len(ts)-1]
			}
		case 3:
			if r.P(1, 2) {
				a.Steps = append(a.Steps, stepMsg{Kind: "close", Uri: u})
				delete(texts, u)
			} else {
				a.Steps = append(a.Steps, stepMsg{Kind: "save", Uri: u})
			}
		default:
			var m string
			var p J
			if r.P(1, 6) {
				cmd, arg := goodCommand(r, u)
				m, p = "workspace/executeCommand", J{"command": cmd, "arguments": []J{arg}}
			} else {
				m, p = docRequest(r, u, t)
			}
			a.Steps = append(a.Steps, stepMsg{Kind: "ask", Uri: u, Method: m, Params: mkArgs(p)})
		}
	}
	return a
}

func ansKey(method string, a lspAns) string {
	var es []string
	for _, e := range a.Edits {
		es = append(es, canonJSON(e, false))
	}
	return canonJSON(a.Result, method != "textDocument/semanticTokens/full") + "\nerror: " + canonJSON(a.Error, false) + "\nedits: " + strings.Join(es, "\n")
}

func init() {
	register(&Check{
		ID:   "J03",
		Rule: "a history of opens, changes, closes and requests over several documents runs on one server; each answer is compared with that of a new server that is only given the document's current text. Non-trivial: at least one answer about a document that was changed or reopened; distinct by history.",
		Gens: []GenSpec{{Name: "histories", Quick: 4000, Thorough: 80000, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genHistory(r, false))}
		}}, {Name: "long", Quick: 40, Thorough: 1000, Make: func(r *Rng, i int) *Case {
			return &Case{Args: mkArgs(genHistory(r, true))}
		}}},
		Require: []string{"answers compared", "answers after a change", "answers on closed documents"},
		Run: func(c *Case, o *Obs) {
			var a histArgs
			c.args(&a)
			var opts interface{}
			if len(a.Opts) > 0 {
				opts = a.Opts
			}
			s := newSess(opts)
			ids := map[int]int{}
			type st struct {
				open    bool
				text    string
				updates int
			}
			docs := map[string]st{}
			at := map[int]st{}
			for i, m := range a.Steps {
				d := docs[m.Uri]
				switch m.Kind {
				case "open":
					s.tell("textDocument/didOpen", opened(m.Uri, m.Texts[0]))
					d.open, d.text = true, m.Texts[0]
					d.updates++
				case "change":
					s.tell("textDocument/didChange", changed(m.Uri, m.Texts...))
					if d.open && len(m.Texts) > 0 {
						d.text = m.Texts[len(m.Texts)-1]
						d.updates++
					}
				case "close":
					s.tell("textDocument/didClose", tdoc(m.Uri))
					d.open = false
				case "save":
					s.tell("textDocument/didSave", tdoc(m.Uri))
				case "ask":
					ids[i] = s.ask(m.Method, m.Params)
					at[i] = d
				}
				docs[m.Uri] = d
			}
			res := s.run(o)
			if res == nil {
				return
			}
			var caps struct {
				Capabilities struct{ TextDocumentSync json.RawMessage }
			}
			json.Unmarshal(res[1].Result, &caps)
			if k := string(caps.Capabilities.TextDocumentSync); k != "1" && !strings.Contains(k, `"change":1`) {
				o.bad("the server takes whole texts in changes but announces synchronisation kind %s", k)
			}
			for i, m := range a.Steps {
				if m.Kind != "ask" {
					continue
				}
				f := newSess(opts)
				d := at[i]
				if d.open {
					f.tell("textDocument/didOpen", opened(m.Uri, d.text))
				}
				id := f.ask(m.Method, m.Params)
				fr := f.run(o)
				if fr == nil {
					return
				}
				got, want := ansKey(m.Method, res[ids[i]]), ansKey(m.Method, fr[id])
				if got != want {
					o.bad("step %d: %s about %q (open %v): the running server answers\n%.400s\na new one for the same text\n%.400s", i, m.Method, m.Uri, d.open, got, want)
				}
				o.count("answers compared", 1)
				if d.open && d.updates > 1 {
					o.count("answers after a change", 1)
					o.nontrivial = true
				}
				if !d.open {
					o.count("answers on closed documents", 1)
					if len(res[ids[i]].Error) == 0 && m.Method != "textDocument/diagnostic" {
						o.bad("step %d: %s about a document that is not open got a result", i, m.Method)
					}
				}
			}
		},
	})
}

// ---------------------------------------------------------------- J04

func init() {
	register(&Check{
		ID:   "J04",
		Rule: "a document reaches its text by opening or by changes and its diagnostics are requested; they are compared, as a multiset, with a direct analysis of that text. Non-trivial: at least one diagnostic; distinct by text.",
		Gens: []GenSpec{
			gsrc("any", 6000, 120000, func(r *Rng) string { return utf8Text(genAny(r)) }),
			gsrc("layout", 1000, 20000, genLayout),
			{Name: "large", Quick: 48, Thorough: 1200, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genLarge(r, i, false))) }},
			gsrc("clean", 500, 5000, func(r *Rng) string {
				return genValid(r, validOpts{n: r.Rg(0, 12), version: 9, onlyNames: true})
			}),
		},
		Require: []string{"diagnostics", "clean documents", "unknown documents"},
		Run: func(c *Case, o *Obs) {
			text := utf8Text(string(c.Src))
			r := NewRng(mix("J04", text))
			s := newSess(nil)
			u, u2 := "file:///x/a.teal", "file:///x/b.teal"
			other := someText(r)
			un := s.ask("textDocument/diagnostic", tdoc(u))
			switch r.N(4) {
			case 0:
				s.tell("textDocument/didOpen", opened(u, text))
			case 1:
				s.tell("textDocument/didOpen", opened(u, other))
				s.ask("textDocument/diagnostic", tdoc(u))
				s.tell("textDocument/didChange", changed(u, text))
			case 2:
				s.tell("textDocument/didOpen", opened(u, other))
				s.tell("textDocument/didChange", changed(u, other+"\nint", text))
			default:
				s.tell("textDocument/didOpen", opened(u, other))
				s.tell("textDocument/didClose", tdoc(u))
				s.tell("textDocument/didOpen", opened(u, text))
			}
			s.tell("textDocument/didOpen", opened(u2, other))
			id := s.ask("textDocument/diagnostic", tdoc(u))
			s.tell("textDocument/didClose", tdoc(u))
			gone := s.ask("textDocument/diagnostic", tdoc(u))
			ans := s.run(o)
			if ans == nil {
				return
			}
			type item struct {
				Range    jRange
				Severity *int
				Message  *string
			}
			read := func(id int, what string) []string {
				var rep struct {
					Kind  string
					Items *[]item
				}
				if json.Unmarshal(ans[id].Result, &rep) != nil || rep.Items == nil || rep.Kind != "full" {
					o.bad("%s: not a full diagnostic report: %.200s %.200s", what, ans[id].Result, ans[id].Error)
					return nil
				}
				var ks []string
				for _, it := range *rep.Items {
					if it.Severity == nil || it.Message == nil {
						o.bad("%s: item without severity or message", what)
						return nil
					}
					ks = append(ks, fmt.Sprintf("%v severity %d %s", it.Range, *it.Severity, *it.Message))
				}
				return ks
			}
			var want []string
			for _, d := range teal.Process(text).Diagnostics {
				var msg string
				json.Unmarshal(mkArgs(d.String()), &msg)
				sev := map[string]int{"error": 1, "warn": 2, "info": 3}[d.Severity().String()]
				want = append(want, fmt.Sprintf("%d.%d-%d.%d severity %d %s", d.Line(), d.Begin(), d.Line(), d.End(), sev, msg))
			}
			got := read(id, "current text")
			if o.sameSet("diagnostics", got, want) {
				o.count("diagnostics", len(want))
			}
			if len(want) == 0 {
				o.count("clean documents", 1)
			}
			o.nontrivial = len(want) > 0
			for _, k := range []int{un, gone} {
				if ks := read(k, "unknown document"); len(ks) > 0 {
					o.bad("an unknown document has diagnostics: %v", ks)
				}
				o.count("unknown documents", 1)
			}
		},
	})
}
