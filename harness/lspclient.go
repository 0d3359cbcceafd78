package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal/lsp"
)

// An independent client side of the two framed JSON protocols.

// parseFrames reads a stream of framed JSON messages; nothing may be left over.
func parseFrames(b []byte) ([]json.RawMessage, string) {
	var out []json.RawMessage
	for len(b) > 0 {
		k := bytes.Index(b, []byte("\r\n\r\n"))
		if k < 0 {
			return out, fmt.Sprintf("output that is not a frame: %.80q", b)
		}
		n := -1
		for _, h := range strings.Split(string(b[:k]), "\r\n") {
			c := strings.Index(h, ":")
			if c < 0 {
				return out, fmt.Sprintf("malformed header line %.80q", h)
			}
			if strings.EqualFold(strings.TrimSpace(h[:c]), "Content-Length") {
				v, err := strconv.Atoi(strings.TrimSpace(h[c+1:]))
				if err != nil || n >= 0 {
					return out, fmt.Sprintf("bad length header %.80q", h)
				}
				n = v
			}
		}
		b = b[k+4:]
		if n < 0 || n > len(b) {
			return out, fmt.Sprintf("a frame announces %d bytes, %d follow", n, len(b))
		}
		m := b[:n]
		if !json.Valid(m) {
			return out, fmt.Sprintf("a frame is not JSON: %.120q", m)
		}
		out = append(out, json.RawMessage(m))
		b = b[n:]
	}
	return out, ""
}

type wireMsg struct {
	JsonRpc string          `json:"jsonrpc"`
	Id      json.RawMessage `json:"id"`
	Method  string          `json:"method"`
	Params  json.RawMessage `json:"params"`
	Result  json.RawMessage `json:"result"`
	Error   json.RawMessage `json:"error"`
}

// serve runs a language server over the given input.
func serve(in io.Reader) (out []byte, code int, err error) {
	var w bytes.Buffer
	l, err := lsp.New(in, &w)
	if err != nil {
		return nil, 0, err
	}
	code, err = l.Run()
	return w.Bytes(), code, err
}

func rpc(id string, method string, params interface{}) string {
	m := `{"jsonrpc":"2.0"`
	if id != "" {
		m += `,"id":` + id
	}
	m += `,"method":` + string(mkArgs(method))
	if params != nil {
		m += `,"params":` + string(mkArgs(params))
	}
	return m + "}"
}

type J = map[string]interface{}

func tdoc(uri string) J { return J{"textDocument": J{"uri": uri}} }

func tpos(uri string, l, c int) J {
	return J{"textDocument": J{"uri": uri}, "position": J{"line": l, "character": c}}
}

func jrange(a, b, c, d int) J {
	return J{"start": J{"line": a, "character": b}, "end": J{"line": c, "character": d}}
}

func opened(uri, text string) J {
	return J{"textDocument": J{"uri": uri, "languageId": "teal", "version": 1, "text": text}}
}

func changed(uri string, texts ...string) J {
	cs := []J{}
	for _, t := range texts {
		cs = append(cs, J{"text": t})
	}
	return J{"textDocument": J{"uri": uri, "version": 2}, "contentChanges": cs}
}

// lspSess is one batch session: messages are queued, then the server runs over them.
type lspSess struct {
	in   bytes.Buffer
	last int
}

type lspAns struct {
	Result json.RawMessage
	Error  json.RawMessage
	Edits  []json.RawMessage // parameters of the workspace/applyEdit requests sent before it
}

func newSess(opts interface{}) *lspSess {
	s := &lspSess{}
	p := J{"capabilities": J{}}
	if opts != nil {
		p["initializationOptions"] = opts
	}
	s.ask("initialize", p)
	s.tell("initialized", J{})
	return s
}

func (s *lspSess) tell(method string, params interface{}) {
	s.in.WriteString(frame(rpc("", method, params)))
}

func (s *lspSess) ask(method string, params interface{}) int {
	s.last++
	s.in.WriteString(frame(rpc(strconv.Itoa(s.last), method, params)))
	return s.last
}

// run executes the session; nil if the protocol itself was broken.
func (s *lspSess) run(o *Obs) map[int]lspAns {
	out, _, err := serve(&s.in)
	if err != nil {
		o.bad("the server failed: %v", err)
		return nil
	}
	frames, bad := parseFrames(out)
	if bad != "" {
		o.bad("%s", bad)
		return nil
	}
	res := map[int]lspAns{}
	var edits []json.RawMessage
	for _, f := range frames {
		var m wireMsg
		if json.Unmarshal(f, &m) != nil {
			o.bad("a frame is not a message: %.120q", f)
			return nil
		}
		if m.Method != "" {
			if m.Method == "workspace/applyEdit" {
				edits = append(edits, m.Params)
			}
			continue
		}
		id, err := strconv.Atoi(string(m.Id))
		if err != nil {
			o.bad("a response with an id nobody used: %s", m.Id)
			return nil
		}
		res[id] = lspAns{m.Result, m.Error, edits}
		edits = nil
	}
	o.count("responses", len(res))
	for i := 1; i <= s.last; i++ {
		if _, ok := res[i]; !ok {
			o.bad("request %d got no response", i)
			return nil
		}
	}
	return res
}

// canonJSON renders a value with sorted keys; lists at the given depth are sorted
// (their order is not promised).
func canonJSON(b json.RawMessage, sortLists bool) string {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return string(b)
	}
	var norm func(v interface{}, depth int) interface{}
	norm = func(v interface{}, depth int) interface{} {
		switch x := v.(type) {
		case []interface{}:
			for i := range x {
				x[i] = norm(x[i], depth+1)
			}
			if sortLists && depth <= 1 {
				ks := make([]string, len(x))
				for i := range x {
					ks[i] = string(mkArgs(x[i]))
				}
				sort.Strings(ks)
				return ks
			}
		case map[string]interface{}:
			for k := range x {
				x[k] = norm(x[k], depth+1)
			}
		}
		return v
	}
	return string(mkArgs(norm(v, 0)))
}

// ---------------------------------------------------------------- edits

type jPos struct{ Line, Character int }
type jRange struct{ Start, End jPos }
type jEdit struct {
	Range   jRange
	NewText string
}

func (r jRange) String() string {
	return fmt.Sprintf("%d.%d-%d.%d", r.Start.Line, r.Start.Character, r.End.Line, r.End.Character)
}

// lineStarts gives the offset of every line; line ends are LF, CR and CRLF.
func lineStarts(s string) []int {
	out := []int{0}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' && !(i+1 < len(s) && s[i+1] == '\n') {
			out = append(out, i+1)
		}
	}
	return out
}

func offsetOf(s string, starts []int, p jPos) int {
	if p.Line < 0 {
		return 0
	}
	if p.Line >= len(starts) {
		return len(s)
	}
	end := len(s)
	if p.Line+1 < len(starts) {
		end = starts[p.Line+1]
		for end > starts[p.Line] && (s[end-1] == '\n' || s[end-1] == '\r') {
			end--
		}
	}
	o := starts[p.Line] + p.Character
	if o > end {
		o = end
	}
	if o < starts[p.Line] {
		o = starts[p.Line]
	}
	return o
}

// applyEdits applies non-overlapping edits; positions are byte columns.
func applyEdits(s string, es []jEdit) (string, error) {
	st := lineStarts(s)
	type span struct {
		a, b int
		t    string
	}
	var sp []span
	for _, e := range es {
		a, b := offsetOf(s, st, e.Range.Start), offsetOf(s, st, e.Range.End)
		if b < a {
			return "", fmt.Errorf("backward edit %v", e.Range)
		}
		sp = append(sp, span{a, b, e.NewText})
	}
	sort.SliceStable(sp, func(i, j int) bool { return sp[i].a < sp[j].a })
	var sb strings.Builder
	at := 0
	for _, x := range sp {
		if x.a < at {
			return "", fmt.Errorf("overlapping edits")
		}
		sb.WriteString(s[at:x.a])
		sb.WriteString(x.t)
		at = x.b
	}
	sb.WriteString(s[at:])
	return sb.String(), nil
}

func utf8Text(s string) string { return strings.ToValidUTF8(s, "?") }
