package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/dbg"
)

type dapMsg struct {
	Seq        *int            `json:"seq"`
	Type       string          `json:"type"`
	RequestSeq *int            `json:"request_seq"`
	Success    *bool           `json:"success"`
	Command    *string         `json:"command"`
	Message    string          `json:"message"`
	Event      string          `json:"event"`
	Body       json.RawMessage `json:"body"`
}

func runDebugger(in io.Reader, out io.Writer) (int, error) {
	l, err := dbg.New(in, out)
	if err != nil {
		return 0, err
	}
	return l.Run()
}

// dirMark stands for the scratch directory of the case in a recorded session.
const dirMark = "@DIR@"

// dapStep is one message of a debug session and what is due for it.
type dapStep struct {
	Raw  string
	Seq  int
	Cmd  string
	Want string // ok, fail, any, none (no response)
}

func dapReq(seq int, cmd string, args interface{}) string {
	m := fmt.Sprintf(`{"seq":%d,"type":"request","command":%s`, seq, mkArgs(cmd))
	if args != nil {
		m += `,"arguments":` + string(mkArgs(args))
	}
	return m + "}"
}

type dapArgs struct {
	Steps []dapStep
	Prog  []byte
	In    []byte
	Fail  bool
	Cut   int
	Seed  uint64
}

// smallProgram: a program whose simulation ends soon on every branch.
func smallProgram(src string, limit int) bool {
	vm := teal.NewVm(teal.Process(src))
	for i := 0; vm.Branch != nil; i++ {
		if i > limit || len(vm.Branches) > 400 {
			return false
		}
		vm.Step()
		if vm.Error != nil {
			return true
		}
	}
	return true
}

func genDebuggee(r *Rng, limit int) string {
	for k := 0; k < 8; k++ {
		var s string
		switch r.N(9) {
		case 0:
			s = genAny(r)
		case 1:
			s = genCalls(r)
		case 2:
			s = genControl(r, cfOpts{})
		case 3:
			s = pick(r, []string{"", "\n", "// nothing", "#pragma version 8\n", "a:\nb:\n", "int 1", "int 1\n", "b a\n", "callsub a\n", "retsub\n", "err", "pop\nint 1\n", "loop:\nint 1\npop\nb loop\n", "proto 1 1\n"})
		default:
			s = genFlow(r, r.Rg(1, 4), r.P(1, 3))
		}
		if smallProgram(s, limit) {
			return s
		}
	}
	return "#pragma version 8\nint 1\nbz a\nint 2\nstore 3\na:\ncallsub s\nint 1\nreturn\ns:\nretsub\n"
}

var dapOdd = []string{"0", "-1", "1", "7", "255", "256", "2147483647", "-2147483648", "9223372036854775807", "1000000"}

func oddNum(r *Rng) json.RawMessage { return json.RawMessage(pick(r, dapOdd)) }

var dapArgCommands = []string{"initialize", "launch", "setBreakpoints", "continue", "next", "variables", "scopes", "stackTrace"}

// genDebugSession: valid and invalid requests in any order.
func genDebugSession(r *Rng) []dapStep {
	var out []dapStep
	seq := r.N(3)
	launched := false
	add := func(cmd string, args interface{}, want string) {
		seq += r.Rg(1, 3)
		out = append(out, dapStep{Raw: dapReq(seq, cmd, args), Seq: seq, Cmd: cmd, Want: want})
	}
	raw := func(body string, cmd, want string) { // body without seq
		seq += r.Rg(1, 3)
		out = append(out, dapStep{Raw: fmt.Sprintf(`{"seq":%d,%s}`, seq, body), Seq: seq, Cmd: cmd, Want: want})
	}
	needVm := func() string {
		if launched {
			return "ok"
		}
		return "fail"
	}
	if r.P(2, 3) {
		add("initialize", J{"adapterID": "teal"}, "ok")
		if r.P(3, 4) {
			add("launch", J{"program": dirMark + "/prog.teal"}, "ok")
			launched = true
		}
	}
	for k := r.Rg(1, 14); k > 0; k-- {
		switch r.N(22) {
		case 0:
			add("initialize", pick(r, []J{{}, {"linesStartAt1": false}, {"columnsStartAt1": true, "linesStartAt1": true}}), "ok")
		case 1:
			add("launch", J{"program": dirMark + "/prog.teal"}, "ok")
			launched = true
		case 2:
			add("launch", J{"program": pick(r, []string{"", dirMark + "/missing.teal", dirMark, "/\x00"})}, "fail")
		case 3, 4:
			var bps []J
			for j := r.N(4); j > 0; j-- {
				bps = append(bps, J{"line": r.Rg(-1, 30)})
			}
			if r.P(1, 4) {
				bps = append(bps, J{"line": oddNum(r)})
			}
			a := J{"source": J{"path": dirMark + "/prog.teal", "name": "prog.teal"}}
			if bps != nil {
				a["breakpoints"] = bps
			}
			if r.P(1, 40) {
				a["note"] = strings.Repeat("x", pick(r, []int{5000, 70000, 140000}))
			}
			add("setBreakpoints", a, "ok")
		case 5, 6:
			add("continue", J{"threadId": r.N(3)}, needVm())
		case 7, 8:
			add("next", J{"threadId": r.N(3)}, needVm())
		case 9:
			add(pick(r, []string{"continue", "next"}), J{"threadId": oddNum(r)}, needVm())
		case 10:
			if r.P(1, 2) {
				add("pause", J{"threadId": 0}, needVm())
			} else {
				add("pause", nil, needVm())
			}
		case 11:
			add("threads", nil, "ok")
		case 12:
			if r.P(1, 2) {
				add("variables", J{"variablesReference": r.Rg(1, 25)}, "any")
			} else {
				a := J{"variablesReference": oddNum(r)}
				if r.P(1, 2) {
					a["variablesReference"] = r.Rg(1, 6)
				}
				if r.P(1, 2) {
					a["start"] = oddNum(r)
				}
				if r.P(1, 2) {
					a["count"] = oddNum(r)
				}
				add("variables", a, "any")
			}
		case 13:
			add("scopes", J{"frameId": oddNum(r)}, "any")
		case 14:
			a := J{"threadId": r.N(2)}
			if r.P(1, 3) {
				a["threadId"] = oddNum(r)
			}
			if r.P(1, 2) {
				a["startFrame"] = oddNum(r)
			}
			if r.P(1, 2) {
				a["levels"] = oddNum(r)
			}
			add("stackTrace", a, "any")
		case 15:
			c := pick(r, []string{"disconnect", "evaluate", "setFunctionBreakpoints", "setInstructionBreakpoints", "setExceptionBreakpoints", "configurationDone"})
			if r.P(1, 2) {
				add(c, J{}, "ok")
			} else {
				add(c, nil, "ok")
			}
		case 16:
			add(pick(r, []string{"", "foo", "stepIn2", "Launch", "gotoTargetsx", "nexT", "\u00e9\"", strings.Repeat("x", 300)}), pick(r, []interface{}{nil, J{}, "x", 5}), "fail")
		case 17: // missing arguments
			c := pick(r, dapArgCommands)
			b := `"type":"request","command":"` + c + `"`
			if r.P(1, 2) {
				b += `,"arguments":null`
			}
			raw(b, c, "fail")
		case 18: // arguments of another shape
			c := pick(r, dapArgCommands)
			raw(`"type":"request","command":"`+c+`","arguments":`+pick(r, []string{`"x"`, `[]`, `5`, `true`, `[{}]`}), c, "fail")
		case 19:
			x := pick(r, [][2]string{
				{"launch", `{"program":5}`}, {"launch", `{"program":{}}`}, {"setBreakpoints", `{"source":{},"breakpoints":[{"line":"1"}]}`},
				{"setBreakpoints", `{"source":{},"breakpoints":[{"line":1.5}]}`}, {"setBreakpoints", `{"source":{},"breakpoints":{}}`}, {"setBreakpoints", `{"source":7,"breakpoints":[]}`},
				{"setBreakpoints", `{"source":{},"breakpoints":[{"line":1e30}]}`}, {"continue", `{"threadId":"a"}`}, {"next", `{"threadId":"a"}`}, {"next", `{"threadId":99999999999999999999}`},
				{"variables", `{"variablesReference":"x"}`}, {"variables", `{"variablesReference":1,"start":"a"}`}, {"scopes", `{"frameId":"x"}`}, {"stackTrace", `{"threadId":[]}`},
				{"stackTrace", `{"threadId":0,"levels":1.25}`}, {"initialize", `{"linesStartAt1":"x"}`}})
			raw(`"type":"request","command":"`+x[0]+`","arguments":`+x[1], x[0], "fail")
		case 20: // not requests
			raw(pick(r, []string{`"type":"event","event":"x"`, `"type":"response","request_seq":1,"success":true,"command":"x"`, `"type":"event","event":"stopped","body":{}`}), "", "none")
		default:
			add("next", J{"threadId": r.N(2)}, needVm())
		}
	}
	return out
}

func dapBytes(steps []dapStep, dir string) []byte {
	var b bytes.Buffer
	for _, s := range steps {
		b.WriteString(frame(strings.ReplaceAll(s.Raw, dirMark, dir)))
	}
	return b.Bytes()
}

// parseDap reads the output of the adapter and checks what holds of every message.
func parseDap(out []byte, o *Obs) ([]dapMsg, bool) {
	frames, bad := parseFrames(out)
	if bad != "" {
		o.bad("%s", bad)
		return nil, false
	}
	var ms []dapMsg
	last := -1 << 62
	for _, f := range frames {
		var m dapMsg
		if err := json.Unmarshal(f, &m); err != nil {
			o.bad("a frame is not a message: %.120q", f)
			return nil, false
		}
		if m.Seq == nil || *m.Seq <= last {
			o.bad("sequence numbers do not increase: %.200q", f)
			return nil, false
		}
		last = *m.Seq
		switch m.Type {
		case "response":
			if m.RequestSeq == nil || m.Success == nil || m.Command == nil {
				o.bad("an incomplete response: %.200q", f)
				return nil, false
			}
			o.count("responses", 1)
		case "event":
			if m.Event == "" || m.RequestSeq != nil {
				o.bad("a malformed event: %.200q", f)
				return nil, false
			}
			o.count("events", 1)
		default:
			o.bad("a message of type %q: %.200q", m.Type, f)
			return nil, false
		}
		ms = append(ms, m)
	}
	return ms, true
}

func checkDapSession(steps []dapStep, out []byte, o *Obs) {
	ms, ok := parseDap(out, o)
	if !ok {
		return
	}
	due := []dapStep{}
	for _, s := range steps {
		if s.Want != "none" {
			due = append(due, s)
		}
	}
	k := 0
	for _, m := range ms {
		if m.Type != "response" {
			continue
		}
		if k >= len(due) {
			o.bad("a response nobody is waiting for: command %q request %d", *m.Command, *m.RequestSeq)
			return
		}
		d := due[k]
		k++
		if *m.RequestSeq != d.Seq || *m.Command != d.Cmd {
			o.bad("request %d %q is followed by a response for %d %q", d.Seq, d.Cmd, *m.RequestSeq, *m.Command)
			return
		}
		if d.Want == "ok" && !*m.Success || d.Want == "fail" && *m.Success {
			o.bad("request %s: success is %v (%s)", d.Raw, *m.Success, m.Message)
			return
		}
		if *m.Success {
			o.count("successes", 1)
		} else {
			o.count("failures", 1)
			if m.Message == "" {
				o.bad("request %s fails without a message", d.Raw)
			}
		}
	}
	if k != len(due) {
		o.bad("%d requests, %d responses; unanswered: %s", len(due), k, due[k].Raw)
	}
}

// dapScratch makes the directory the debuggee lies in.
func dapScratch(prog []byte) (string, func()) {
	dir, err := os.MkdirTemp("", "verif-dap-")
	if err != nil {
		panic(harnessBug{err.Error()})
	}
	if err := os.WriteFile(filepath.Join(dir, "prog.teal"), prog, 0644); err != nil {
		panic(harnessBug{err.Error()})
	}
	return dir, func() { os.RemoveAll(dir) }
}

var dapHostile = []string{"", "{", "null", "true", "0", "[]", `"x"`, "{}", `{"type":"request"}`, `{"type":"request","command":5,"seq":3}`, `{"type":5}`, `{"seq":"x","type":"request","command":"threads"}`,
	`{"seq":1.5,"type":"request","command":"threads"}`, `{"seq":1e400,"type":"request"}`, `{"seq":-1,"type":"request","command":"threads"}`, "\x00\xff", `{"type":"request","command":"` + "\xff" + `"}`,
	`{"type":"request","command":"setBreakpoints","arguments":{"breakpoints":[null,{}]}}`, `{"type":"request","command":"launch","arguments":{}}`, `{"type":"request","command":"launch","arguments":{"program":null}}`,
	`{"type":"request","command":"variables","arguments":{"variablesReference":1,"count":-9223372036854775808}}`,
	`{"type":"request","command":"variables","arguments":{"variablesReference":2,"start":9223372036854775807,"count":9223372036854775807}}`,
	`{"type":"request","command":"variables","arguments":{"variablesReference":-9223372036854775808}}`,
	`{"type":"request","command":"variables","arguments":{"variablesReference":3,"start":-5,"count":2}}`,
	`{"type":"request","command":"stackTrace","arguments":{"threadId":0,"startFrame":9223372036854775807,"levels":9223372036854775807}}`,
	`{"type":"request","command":"stackTrace","arguments":{"threadId":0,"startFrame":-9223372036854775808,"levels":-1}}`,
	`{"type":"request","command":"setBreakpoints","arguments":{"source":{},"breakpoints":[{"line":-9223372036854775808},{"line":9223372036854775807}]}}`,
	strings.Repeat("[", 20000), strings.Repeat(`{"arguments":`, 3000)}

func dapHostileFrame(r *Rng) string {
	switch r.N(7) {
	case 0:
		return pick(r, []string{"Content-Length: abc\r\n\r\n", "Content-Length: -5\r\n\r\n", "Content-Length:\r\n\r\n", "X: y\r\n\r\n", "Content-Type: a\r\n\r\n", "Content-Length: 99999999999999999999\r\n\r\n", "Content-Length: 0\r\n\r\n", "\r\n", "Content-Length: -9223372036854775808\r\n\r\n"})
	case 1:
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return frame(string(b))
	case 2:
		m := []byte(pick(r, genDebugSession(r)).Raw)
		for k := r.Rg(1, 4); k > 0 && len(m) > 0; k-- {
			i := r.N(len(m))
			switch r.N(3) {
			case 0:
				m = append(m[:i], m[i+1:]...)
			case 1:
				m[i] = byte(r.U64())
			default:
				m = m[:i]
			}
		}
		return frame(string(m))
	case 3:
		b := pick(r, dapHostile)
		return fmt.Sprintf("Content-Type: application/json\r\ncontent-length:  %d \r\n\r\n%s", len(b), b)
	default:
		return frame(pick(r, dapHostile))
	}
}

const dapProbe = 987654321

func init() {
	withDir := func(a dapArgs, f func(dir string)) {
		dir, done := dapScratch(a.Prog)
		defer done()
		f(dir)
	}
	smallDebug := func(r *Rng) []dapStep {
		return []dapStep{
			{Raw: dapReq(1, "initialize", J{}), Seq: 1, Cmd: "initialize", Want: "ok"},
			{Raw: dapReq(2, "launch", J{"program": dirMark + "/prog.teal"}), Seq: 2, Cmd: "launch", Want: "ok"},
			{Raw: dapReq(3, "setBreakpoints", J{"source": J{"path": "x"}, "breakpoints": []J{{"line": r.Rg(1, 5)}}}), Seq: 3, Cmd: "setBreakpoints", Want: "ok"},
			{Raw: dapReq(4, pick(r, []string{"next", "continue"}), J{"threadId": 0}), Seq: 4, Want: "ok"},
			{Raw: dapReq(5, "stackTrace", J{"threadId": 0}), Seq: 5, Cmd: "stackTrace", Want: "ok"},
			{Raw: dapReq(6, "variables", J{"variablesReference": r.Rg(1, 4)}), Seq: 6, Cmd: "variables", Want: "ok"},
		}
	}
	register(&Check{
		ID:   "K01",
		Rule: "debug sessions of valid and invalid requests, hostile frames, garbage, input cut at every byte, failing output and the real process; an offline checker matches every byte written with the requests. Non-trivial: a request was refused or a fault injected; distinct by session and fault point.",
		Gens: []GenSpec{
			{Name: "sessions", Quick: 5000, Thorough: 120000, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(dapArgs{Steps: genDebugSession(r), Prog: []byte(genDebuggee(r, 3000))})}
			}},
			{Name: "conversation", Quick: 400, Thorough: 8000, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(dapArgs{Steps: genDebugSession(r), Prog: []byte(genDebuggee(r, 3000))})}
			}},
			{Name: "hostile-frames", Quick: 4000, Thorough: 80000, Make: func(r *Rng, i int) *Case {
				var b bytes.Buffer
				var steps []dapStep
				if r.P(1, 2) {
					steps = smallDebug(r)[:r.Rg(2, 6)]
				}
				for k := r.Rg(1, 6); k > 0; k-- {
					b.WriteString(dapHostileFrame(r))
				}
				return &Case{Args: mkArgs(dapArgs{Steps: steps, In: b.Bytes(), Prog: []byte(genDebuggee(r, 3000)), Seed: r.U64()})}
			}},
			{Name: "each-body", Quick: 2 * len(dapHostile), Make: func(r *Rng, i int) *Case {
				var steps []dapStep
				if i%2 == 0 {
					steps = smallDebug(r)
				}
				return &Case{Args: mkArgs(dapArgs{Steps: steps, In: []byte(frame(dapHostile[i/2])), Prog: []byte("#pragma version 8\nint 1\ncallsub a\nint 2\na:\nstore 1\nretsub\n")})}
			}},
			{Name: "garbage", Quick: 2500, Thorough: 60000, Make: func(r *Rng, i int) *Case {
				var b []byte
				for k := r.Rg(1, 10); k > 0; k-- {
					switch r.N(4) {
					case 0:
						for j := r.N(30); j > 0; j-- {
							b = append(b, byte(r.U64()))
						}
					case 1:
						b = append(b, pick(r, []string{"Content-Length: ", "Content-Length: 10\r\n", "\r\n\r\n", "\n", ":", " ", "\r", "Content-Length: 5\n\n", "A: b\r\n C\r\n"})...)
					default:
						b = append(b, dapHostileFrame(r)...)
					}
				}
				return &Case{Args: mkArgs(dapArgs{In: b, Fail: r.P(1, 2), Seed: r.U64(), Prog: []byte("int 1")})}
			}},
			{Name: "cut-everywhere", Quick: 30, Thorough: 300, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(dapArgs{Steps: smallDebug(r), Fail: i%2 == 0, Seed: r.U64(), Prog: []byte("#pragma version 8\nint 1\nbz a\nint 2\na:\nint 3\n")})}
			}},
			{Name: "write-fails", Quick: 30, Thorough: 300, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(dapArgs{Steps: smallDebug(r), Seed: r.U64(), Prog: []byte("#pragma version 8\nint 1\nbz a\nint 2\na:\nint 3\n")})}
			}},
			{Name: "process", Quick: 90, Thorough: 500, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(dapArgs{Steps: genDebugSession(r), Cut: r.N(3), Seed: r.U64(), Prog: []byte(genDebuggee(r, 3000))})}
			}},
		},
		Require: []string{"successes", "failures", "events", "probes answered", "cut points", "failed writes", "processes", "connections", "answered at once"},
		Run: func(c *Case, o *Obs) {
			var a dapArgs
			c.args(&a)
			r := NewRng(a.Seed)
			o.nontrivial = true
			withDir(a, func(dir string) {
				switch c.Gen {
				case "sessions":
					var w bytes.Buffer
					if _, err := runDebugger(&faultReader{b: dapBytes(a.Steps, dir), fail: io.EOF}, &w); err != nil {
						o.bad("the adapter failed: %v", err)
						return
					}
					checkDapSession(a.Steps, w.Bytes(), o)
					o.nontrivial = o.counts["failures"] > 0
				case "conversation":
					conversation(a.Steps, dir, o)
				case "hostile-frames", "each-body":
					in := append(dapBytes(a.Steps, dir), a.In...)
					in = append(in, frame(dapReq(dapProbe, "threads", nil))...)
					var w bytes.Buffer
					if _, err := runDebugger(&faultReader{b: in, chunk: r, fail: io.EOF}, &w); err != nil {
						o.bad("the adapter stopped with %v", err)
					}
					ms, ok := parseDap(w.Bytes(), o)
					if !ok {
						return
					}
					n := 0
					for _, m := range ms {
						if m.Type == "response" && *m.RequestSeq == dapProbe {
							n++
						}
					}
					if n != 1 {
						o.bad("the request after the hostile messages got %d responses", n)
					}
					o.count("probes answered", n)
				case "garbage":
					f := io.EOF
					if a.Fail {
						f = errInjected
					}
					var w bytes.Buffer
					runDebugger(&faultReader{b: a.In, chunk: r, fail: f}, &w)
					o.count("garbage streams", 1)
				case "cut-everywhere":
					in := dapBytes(a.Steps, dir)
					var w bytes.Buffer
					runDebugger(&faultReader{b: in, fail: io.EOF}, &w)
					full := w.Bytes()
					for k := 0; k <= len(in); k++ {
						f := io.EOF
						if a.Fail {
							f = errInjected
						}
						var w bytes.Buffer
						runDebugger(&faultReader{b: in[:k], chunk: r, fail: f}, &w)
						if !bytes.HasPrefix(full, w.Bytes()) {
							o.bad("input cut at byte %d of %d: output is not a prefix of the full output", k, len(in))
						}
						o.count("cut points", 1)
					}
				case "write-fails":
					in := dapBytes(a.Steps, dir)
					var w bytes.Buffer
					runDebugger(&faultReader{b: in, fail: io.EOF}, &w)
					for k := 0; k < w.Len(); k += 1 + r.N(1+w.Len()/200) {
						runDebugger(&faultReader{b: in, fail: io.EOF}, &faultWriter{ok: k})
						o.count("failed writes", 1)
					}
				case "process":
					bin, args := toolPath("tealsp"), []string{"dbg"}
					trace := filepath.Join(dir, "trace.txt")
					tcp := false
					switch r.N(4) {
					case 0:
						bin, args = toolPath("tealdbg"), nil
						if r.P(1, 2) {
							args = []string{"-debug", trace}
						}
						tcp = r.P(1, 2)
					case 1:
						args = append(args, "-debug", trace)
					}
					if bin == "" {
						return
					}
					in := dapBytes(a.Steps, dir)
					whole := true
					switch a.Cut {
					case 1:
						in, whole = in[:r.N(len(in)+1)], false
					case 2:
						in, whole = append(in, dapHostileFrame(r)...), false
					}
					out, _, ok := runTool(bin, args, tcp, in, false, o)
					if !ok {
						return
					}
					if tcp {
						o.count("connections", 1)
					}
					if whole {
						checkDapSession(a.Steps, out, o)
					} else {
						parseDap(out, o)
					}
					o.count("processes", 1)
				}
			})
		},
	})
}

// dapConn talks to an adapter that is kept running.
type dapConn struct {
	in   *io.PipeWriter
	out  *bufio.Reader
	done chan string
}

func dialDap() *dapConn {
	ir, iw := io.Pipe()
	q := newQueue()
	or, ow := q, q
	c := &dapConn{in: iw, out: bufio.NewReader(or), done: make(chan string, 1)}
	go func() {
		why := ""
		defer func() {
			if e := recover(); e != nil {
				why = fmt.Sprintf("panic: %v", e)
			}
			ow.Close()
			ir.Close()
			c.done <- why
		}()
		if _, err := runDebugger(ir, ow); err != nil {
			why = err.Error()
		}
	}()
	return c
}

// queue is a pipe whose writer never waits.
type queue struct {
	mu     sync.Mutex
	more   *sync.Cond
	b      []byte
	closed bool
}

func newQueue() *queue {
	q := &queue{}
	q.more = sync.NewCond(&q.mu)
	return q
}

func (q *queue) Write(p []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.b = append(q.b, p...)
	q.more.Signal()
	return len(p), nil
}

func (q *queue) Close() error {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.closed = true
	q.more.Signal()
	return nil
}

func (q *queue) Read(p []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.b) == 0 && !q.closed {
		q.more.Wait()
	}
	if len(q.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, q.b)
	q.b = q.b[n:]
	return n, nil
}

// recv reads one message; an error means that the adapter has ended.
func (c *dapConn) recv() (dapMsg, error) {
	var m dapMsg
	n := -1
	for {
		l, err := c.out.ReadString('\n')
		if err != nil {
			return m, err
		}
		l = strings.TrimRight(l, "\r\n")
		if l == "" {
			break
		}
		k := strings.Index(l, ":")
		if k > 0 && strings.EqualFold(l[:k], "Content-Length") {
			n, _ = strconv.Atoi(strings.TrimSpace(l[k+1:]))
		}
	}
	if n < 0 {
		return m, fmt.Errorf("a frame without length")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(c.out, b); err != nil {
		return m, err
	}
	return m, json.Unmarshal(b, &m)
}

func (c *dapConn) send(s string) error {
	_, err := io.WriteString(c.in, frame(s))
	return err
}

// close ends the input and waits for the adapter to return.
func (c *dapConn) close(o *Obs) {
	c.in.Close()
	if why := <-c.done; why != "" {
		o.bad("the adapter ended: %s", why)
	}
}

// conversation: every request is answered before the next one is sent.
func conversation(steps []dapStep, dir string, o *Obs) {
	c := dialDap()
	for _, s := range steps {
		if c.send(strings.ReplaceAll(s.Raw, dirMark, dir)) != nil {
			o.bad("the adapter no longer reads")
			break
		}
		if s.Want == "none" {
			continue
		}
		got := false
		for !got {
			m, err := c.recv()
			if err != nil {
				o.bad("no response to %s: %v", s.Raw, err)
				c.close(o)
				return
			}
			if m.Type == "response" {
				if m.RequestSeq == nil || *m.RequestSeq != s.Seq {
					o.bad("request %d is followed by another response", s.Seq)
					c.close(o)
					return
				}
				got = true
			}
		}
		o.count("answered at once", 1)
	}
	c.close(o)
}

// ---------------------------------------------------------------- K02

type k02Args struct {
	Zero  bool // lines start at 0
	ZeroC bool
	Cmds  []k02Cmd
	Seed  uint64
	Prog2 []byte
	Prog3 []byte
	Long  bool `json:",omitempty"` // long runs and many branches
}

type k02Cmd struct {
	Op    string // launch, bp, next, continue, pause
	Lines []int
	Pick  uint64 // which thread
	Prog  int
}

type mirror struct {
	vm   *teal.Vm
	path string
}

// talk sends a request and a fence; what arrives in between belongs to it.
func (d *k02Run) talk(cmd string, args interface{}) (resp *dapMsg, evs []dapMsg, ok bool) {
	d.seq++
	want := d.seq
	if d.send(dapReq(want, cmd, args)) {
		return nil, nil, false
	}
	d.seq++
	fence := d.seq
	if d.send(dapReq(fence, "threads", nil)) {
		return nil, nil, false
	}
	for {
		m, err := d.c.recv()
		if err != nil {
			d.o.bad("%s: the adapter stops answering: %v", cmd, err)
			return nil, nil, false
		}
		if m.Type == "response" {
			if m.RequestSeq != nil && *m.RequestSeq == fence {
				d.threads = m
				break
			}
			if resp != nil || m.RequestSeq == nil || *m.RequestSeq != want {
				d.o.bad("%s: an unexpected response", cmd)
				return nil, nil, false
			}
			mm := m
			resp = &mm
			continue
		}
		if resp == nil {
			d.o.bad("%s: event %s arrives before the response", cmd, m.Event)
			return nil, nil, false
		}
		evs = append(evs, m)
	}
	if resp == nil {
		d.o.bad("%s: no response", cmd)
		return nil, nil, false
	}
	return resp, evs, true
}

func (d *k02Run) send(s string) (failed bool) {
	if err := d.c.send(s); err != nil {
		d.o.bad("the adapter no longer reads: %v", err)
		return true
	}
	return false
}

// ask is a request without events.
func (d *k02Run) ask(cmd string, args interface{}, body interface{}) bool {
	resp, evs, ok := d.talk(cmd, args)
	if !ok {
		return false
	}
	if len(evs) > 0 {
		d.o.bad("%s causes event %s", cmd, evs[0].Event)
		return false
	}
	if resp.Success == nil || !*resp.Success {
		d.o.bad("%s fails: %s", cmd, resp.Message)
		return false
	}
	if body != nil && json.Unmarshal(resp.Body, body) != nil {
		d.o.bad("%s: body %.200s", cmd, resp.Body)
		return false
	}
	return true
}

type k02Run struct {
	c       *dapConn
	o       *Obs
	r       *Rng
	seq     int
	lz, cz  int
	threads dapMsg
	m       *mirror
	bpLine  map[int]int // breakpoint id to zero-based line
}

type dThread struct {
	Id   *int
	Name string
}
type dFrame struct {
	Id     *int
	Name   string
	Line   *int
	Column *int
	Source struct{ Name, Path string }
}
type dScope struct {
	Name               string
	VariablesReference int
	IndexedVariables   *int
}
type dVar struct {
	Name, Value        string
	VariablesReference int
}

func wantVars(b *teal.VmBranch, scope string, start, count int) []string {
	var all []string
	at := func(s int) bool { return s >= start && (count <= 0 || s < start+count) }
	switch scope {
	case "State":
		return []string{"Budget=" + strconv.Itoa(b.Budget)}
	case "Stack":
		n := len(b.Stack.Items)
		for i := n - 1; i >= 0; i-- {
			if at(n - 1 - i) {
				all = append(all, fmt.Sprintf("%d=%s", i, b.Stack.Items[i].String()))
			}
		}
	case "Scratch":
		for i, v := range b.Scratch.Items {
			if v.T != teal.VmTypeNone && at(i) {
				all = append(all, fmt.Sprintf("%d=%s", i, v.String()))
			}
		}
	case "Trace":
		for i, v := range b.Trace {
			if at(i) {
				all = append(all, fmt.Sprintf("%d=%s", i, v.String()))
			}
		}
	}
	return all
}

func (d *k02Run) vars(ref int, b *teal.VmBranch, scope string, total int) bool {
	if total > 60 && d.r.P(1, 3) { // page by page, as an editor does
		size := pick(d.r, []int{100, 100, 64, 50 + d.r.N(200)})
		at := 0
		if d.r.P(1, 2) && total > 6*size {
			at = total / size / 2 * size
		}
		for n := 0; at < total && n < 12; n++ {
			if !d.page(ref, b, scope, at, size, J{"variablesReference": ref, "start": at, "count": size, "filter": "indexed"}) {
				return false
			}
			at += size
		}
		d.o.count("paged through", 1)
		return true
	}
	a := J{"variablesReference": ref}
	start, count := 0, 0
	switch d.r.N(5) {
	case 0:
		start = d.r.N(total + 3)
		a["start"] = start
	case 1:
		count = d.r.N(total + 3)
		a["count"] = count
	case 2:
		start, count = d.r.N(total+3), d.r.N(total+3)
		a["start"], a["count"] = start, count
	}
	return d.page(ref, b, scope, start, count, a)
}

func (d *k02Run) page(ref int, b *teal.VmBranch, scope string, start, count int, a J) bool {
	var body struct{ Variables []dVar }
	if !d.ask("variables", a, &body) {
		return false
	}
	var got []string
	for _, v := range body.Variables {
		got = append(got, v.Name+"="+v.Value)
	}
	want := wantVars(b, scope, start, count)
	for i := range want {
		want[i] = viaJSON(want[i])
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		d.o.bad("branch %d, %s from %d count %d: variables %.400q, want %.400q", b.Id, scope, start, count, got, want)
		return false
	}
	d.o.count("variables compared", len(want))
	return true
}

// compare asks for everything the adapter shows and compares it with the mirror.
func (d *k02Run) compare() bool {
	vm := d.m.vm
	var tb struct{ Threads []dThread }
	if json.Unmarshal(d.threads.Body, &tb) != nil {
		d.o.bad("threads: body %.200s", d.threads.Body)
		return false
	}
	var got, want []string
	for _, t := range tb.Threads {
		if t.Id == nil {
			d.o.bad("a thread without id")
			return false
		}
		got = append(got, strconv.Itoa(*t.Id))
	}
	for _, b := range vm.Branches {
		want = append(want, strconv.Itoa(b.Id))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		d.o.bad("threads %v, branches %v", got, want)
		return false
	}
	d.o.count("states compared", 1)
	bs := vm.Branches
	if len(bs) > 4 {
		bs = nil
		for k := 0; k < 3; k++ {
			bs = append(bs, pick(d.r, vm.Branches))
		}
		bs = append(bs, vm.Branches[len(vm.Branches)-1])
	}
	for _, b := range bs {
		if !d.branch(b) {
			return false
		}
	}
	return true
}

func (d *k02Run) branch(b *teal.VmBranch) bool {
	var want []string
	line, name := b.Line, b.Name
	show := func() {
		want = append(want, fmt.Sprintf("%s at %d.%d", viaJSON(name), line+d.lz, d.cz))
	}
	show()
	for i := len(b.Frames) - 1; i >= 0; i-- {
		line, name = b.Frames[i].Return, b.Frames[i].Name
		show()
	}
	a := J{"threadId": b.Id}
	total := len(want)
	if d.r.P(1, 3) {
		s := d.r.N(total + 2)
		a["startFrame"] = s
		if s > total {
			s = total
		}
		want = want[s:]
	}
	if d.r.P(1, 3) {
		n := d.r.N(total + 2)
		a["levels"] = n
		if n > 0 && n < len(want) {
			want = want[:n]
		}
	}
	var st struct {
		StackFrames []dFrame
		TotalFrames *int
	}
	if !d.ask("stackTrace", a, &st) {
		return false
	}
	var got []string
	frame := -1
	for _, f := range st.StackFrames {
		if f.Id == nil || f.Line == nil || f.Column == nil {
			d.o.bad("an incomplete stack frame")
			return false
		}
		got = append(got, fmt.Sprintf("%s at %d.%d", f.Name, *f.Line, *f.Column))
		if f.Source.Path != d.m.path {
			d.o.bad("a stack frame in %q, want %q", f.Source.Path, d.m.path)
		}
		frame = *f.Id
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") || st.TotalFrames != nil && *st.TotalFrames != total {
		d.o.bad("branch %d, request %s: frames %q, want %q of %d", b.Id, mkArgs(a), got, want, total)
		return false
	}
	d.o.count("frames compared", len(want))
	if total > 1 {
		d.o.count("call stacks", 1)
	}
	if frame < 0 {
		return true
	}
	var sc struct{ Scopes []dScope }
	if !d.ask("scopes", J{"frameId": frame}, &sc) {
		return false
	}
	totals := map[string]int{"State": 1, "Stack": len(b.Stack.Items), "Scratch": 256, "Trace": len(b.Trace)}
	var names []string
	for _, s := range sc.Scopes {
		names = append(names, s.Name)
		n, ok := totals[s.Name]
		if !ok || s.VariablesReference <= 0 || s.IndexedVariables != nil && s.Name != "State" && *s.IndexedVariables != n {
			d.o.bad("branch %d: scope %s", b.Id, mkArgs(s))
			return false
		}
		if !d.vars(s.VariablesReference, b, s.Name, n) {
			return false
		}
	}
	sort.Strings(names)
	if strings.Join(names, " ") != "Scratch Stack State Trace" {
		d.o.bad("branch %d: scopes %v", b.Id, names)
		return false
	}
	return true
}

// stop checks the stop event that is due after a command.
func (d *k02Run) stop(cmd string, evs []dapMsg, reason string, asked int) bool {
	vm := d.m.vm
	var stops []dapMsg
	for _, e := range evs {
		if e.Event == "stopped" {
			stops = append(stops, e)
		} else if !(cmd == "launch" && e.Event == "process") {
			d.o.bad("%s: event %s", cmd, e.Event)
			return false
		}
	}
	if len(stops) != 1 {
		d.o.bad("%s is followed by %d stop events", cmd, len(stops))
		return false
	}
	var b struct {
		Reason           string
		Description      string
		ThreadId         *int
		HitBreakpointIds []int
	}
	if json.Unmarshal(stops[0].Body, &b) != nil {
		d.o.bad("%s: stop event %.200s", cmd, stops[0].Body)
		return false
	}
	if vm.Error != nil && (cmd == "next" || cmd == "continue") {
		reason = "exception"
	}
	if b.Reason != reason {
		d.o.bad("%s: stopped for %q, the simulation for %q", cmd, b.Reason, reason)
		return false
	}
	d.o.count("stops: "+reason, 1)
	id := "none"
	if b.ThreadId != nil {
		id = strconv.Itoa(*b.ThreadId)
	}
	switch {
	case reason == "exception":
		if !strings.Contains(b.Description, viaJSON(fmt.Sprint(vm.Error))) {
			d.o.bad("%s: exception %q, the simulation says %q", cmd, b.Description, vm.Error)
		}
	case cmd == "continue" && len(vm.Triggered) > 0:
		if b.ThreadId == nil {
			d.o.bad("a breakpoint stop without thread")
			return false
		}
		hit, ok := vm.Triggered[*b.ThreadId]
		_, mine := vm.Triggered[asked]
		if !ok || mine && *b.ThreadId != asked {
			d.o.bad("stopped at a breakpoint in branch %d (continued: %d), the simulation in %v", *b.ThreadId, asked, vm.Triggered)
			return false
		}
		g, w := map[int]int{}, map[int]int{}
		for _, l := range hit {
			w[l] = 1
		}
		for _, id := range b.HitBreakpointIds {
			l, ok := d.bpLine[id]
			if !ok {
				d.o.bad("hit breakpoint %d was never set", id)
				return false
			}
			g[l] = 1
		}
		if fmt.Sprint(g) != fmt.Sprint(w) {
			d.o.bad("hit breakpoints on lines %v, the simulation on %v", g, w)
		}
		d.o.count("breakpoints hit", 1)
	case cmd == "continue":
		if b.ThreadId != nil {
			d.o.bad("the program has ended, but branch %d is reported", *b.ThreadId)
		}
	default:
		want := "none"
		if vm.Branch != nil {
			if vm.Branch.Line == teal.ExitLine {
				return true // which branch is shown after one has run out is not claimed
			}
			want = strconv.Itoa(vm.Branch.Id)
		}
		if id != want {
			d.o.bad("%s: stopped in branch %s, the simulation in %s", cmd, id, want)
		}
	}
	return len(d.o.problems) == 0
}

// mirrorRun is Run with a limit; false when the program does not get there soon.
func mirrorRun(vm *teal.Vm, src string, long bool, replay func(*teal.Vm)) bool {
	maxSteps, maxBranches := 4000, 300
	if long {
		maxSteps, maxBranches = 12000, 600
	}
	// try on a copy brought to the same point, so that the mirror itself makes the same call
	t := teal.NewVm(teal.Process(src))
	replay(t)
	for i := 0; t.Branch != nil && t.Error == nil; i++ {
		if i > maxSteps || len(t.Branches) > maxBranches {
			return false
		}
		t.Step()
		if len(t.Triggered) > 0 {
			break
		}
	}
	vm.Run()
	return true
}

func runMirror(c *Case, o *Obs) {
	var a k02Args
	c.args(&a)
	dir, done := dapScratch(c.Src)
	defer done()
	os.WriteFile(filepath.Join(dir, "two.teal"), a.Prog2, 0644)
	files := []string{filepath.Join(dir, "prog.teal"), filepath.Join(dir, "two.teal")}
	srcs := []string{string(c.Src), string(a.Prog2)}

	d := &k02Run{c: dialDap(), o: o, r: NewRng(a.Seed), lz: 1, cz: 1}
	defer d.c.close(o)
	ia := J{"adapterID": "teal"}
	if a.Zero {
		ia["linesStartAt1"] = false
		d.lz = 0
	} else if d.r.P(1, 2) {
		ia["linesStartAt1"] = true
	}
	if a.ZeroC {
		ia["columnsStartAt1"] = false
		d.cz = 0
	}
	if resp, evs, ok := d.talk("initialize", ia); !ok {
		return
	} else if len(evs) != 1 || evs[0].Event != "initialized" || !*resp.Success {
		o.bad("initialize is followed by the events %v", events(evs))
		return
	}
	var log []func(*teal.Vm)
	src := ""
	for _, k := range a.Cmds {
		if d.m == nil && k.Op != "launch" {
			continue
		}
		thread := 0
		if d.m != nil && len(d.m.vm.Branches) > 0 {
			// mostly one that can move, sometimes one that has ended or does not exist
			var live []int
			for _, b := range d.m.vm.Branches {
				if b.Line != teal.ExitLine {
					live = append(live, b.Id)
				}
			}
			switch {
			case k.Pick%16 == 0:
				thread = int(k.Pick >> 8 & 255)
			case k.Pick%16 < 3 || len(live) == 0:
				thread = d.m.vm.Branches[int(k.Pick>>8%uint64(len(d.m.vm.Branches)))%len(d.m.vm.Branches)].Id
			default:
				thread = live[int(k.Pick>>8)&0xffff%len(live)]
			}
		}
		switch k.Op {
		case "launch":
			src = srcs[k.Prog]
			if k.Pick%2 == 1 { // the file was edited since
				src = string(a.Prog3)
				os.WriteFile(files[k.Prog], a.Prog3, 0644)
				srcs[k.Prog] = src
			}
			d.m = &mirror{vm: teal.NewVm(teal.Process(src)), path: files[k.Prog]}
			log = nil
			d.bpLine = map[int]int{}
			resp, evs, ok := d.talk("launch", J{"program": files[k.Prog]})
			if !ok {
				return
			}
			if !*resp.Success {
				o.bad("launch fails: %s", resp.Message)
				return
			}
			if !d.stop("launch", evs, "entry", 0) {
				return
			}
			var pe struct{ Name string }
			if evs[0].Event != "process" || json.Unmarshal(evs[0].Body, &pe) != nil || pe.Name != files[k.Prog] {
				o.bad("launch is followed by the events %v", events(evs))
				return
			}
		case "bp":
			verified := d.m.vm.SetBreakpoints(k.Lines)
			lines := k.Lines
			log = append(log, func(v *teal.Vm) { v.SetBreakpoints(lines) })
			bps := []J{}
			for _, l := range k.Lines {
				bps = append(bps, J{"line": l + d.lz})
			}
			var body struct {
				Breakpoints []struct {
					Id       *int
					Verified *bool
					Line     *int
				}
			}
			if !d.ask("setBreakpoints", J{"source": J{"path": d.m.path, "name": "prog"}, "breakpoints": bps}, &body) {
				return
			}
			if len(body.Breakpoints) != len(k.Lines) {
				o.bad("%d breakpoints set, %d reported", len(k.Lines), len(body.Breakpoints))
				return
			}
			d.bpLine = map[int]int{}
			for i, b := range body.Breakpoints {
				if b.Verified == nil || *b.Verified != verified[k.Lines[i]] || b.Line == nil || *b.Line != k.Lines[i]+d.lz {
					o.bad("breakpoint on line %d: %s, the simulation says %v", k.Lines[i], mkArgs(b), verified[k.Lines[i]])
					return
				}
				if b.Id != nil {
					if l, ok := d.bpLine[*b.Id]; ok && l != k.Lines[i] {
						o.bad("breakpoints on lines %d and %d have one id", l, k.Lines[i])
						return
					}
					d.bpLine[*b.Id] = k.Lines[i]
				}
			}
			o.count("breakpoints set", len(k.Lines))
		case "next":
			d.m.vm.Switch(thread)
			d.m.vm.Step()
			th := thread
			log = append(log, func(v *teal.Vm) { v.Switch(th); v.Step() })
			_, evs, ok := d.talk("next", J{"threadId": thread})
			if !ok || !d.stop("next", evs, "step", thread) {
				return
			}
		case "continue":
			if !mirrorRun(d.m.vm, src, a.Long, func(t *teal.Vm) {
				for _, f := range log {
					f(t)
				}
			}) {
				o.count("too large to continue", 1)
				return
			}
			log = append(log, func(v *teal.Vm) { v.Run() })
			_, evs, ok := d.talk("continue", J{"threadId": thread})
			if !ok || !d.stop("continue", evs, "breakpoint", thread) {
				return
			}
		case "pause":
			_, evs, ok := d.talk("pause", J{"threadId": thread})
			if !ok || !d.stop("pause", evs, "pause", thread) {
				return
			}
		}
		if d.r.P(1, 2) && !d.compare() {
			return
		}
		o.count("commands", 1)
		if len(d.m.vm.Branches) > 300 && !a.Long {
			break
		}
	}
	if d.m != nil {
		if d.talkFence() {
			d.compare()
		}
		o.nontrivial = o.counts["commands"] > 1
		o.seen(fmt.Sprint(h64([]byte(shot(d.m.vm)))))
	}
}

func events(evs []dapMsg) (out []string) {
	for _, e := range evs {
		out = append(out, e.Event+" "+string(e.Body))
	}
	return
}

func (d *k02Run) talkFence() bool {
	_, _, ok := d.talk("configurationDone", nil)
	return ok
}

func init() {
	mk := func(gen func(r *Rng) string, max int) func(r *Rng, i int) *Case {
		return func(r *Rng, i int) *Case {
			src := gen(r)
			n := strings.Count(src, "\n") + 1
			a := k02Args{Zero: r.P(1, 3), ZeroC: r.P(1, 3), Seed: r.U64(), Prog2: []byte(genDebuggee(r, 3000)), Prog3: []byte(genDebuggee(r, 3000))}
			bias := pick(r, []string{"next", "continue", "next"})
			a.Cmds = append(a.Cmds, k02Cmd{Op: "launch"})
			bp := func() k02Cmd {
				k := k02Cmd{Op: "bp"}
				for j := r.N(5); j > 0; j-- {
					k.Lines = append(k.Lines, r.Rg(-1, n+1))
				}
				if k.Lines == nil {
					k.Lines = []int{}
				}
				return k
			}
			if r.P(2, 3) {
				a.Cmds = append(a.Cmds, bp())
			}
			for k := r.Rg(1, max); k > 0; k-- {
				switch r.N(14) {
				case 0, 1:
					a.Cmds = append(a.Cmds, bp())
				case 2, 3, 4:
					a.Cmds = append(a.Cmds, k02Cmd{Op: "continue", Pick: r.U64()})
				case 5:
					a.Cmds = append(a.Cmds, k02Cmd{Op: "pause", Pick: r.U64()})
				case 6:
					if r.P(1, 4) {
						a.Cmds = append(a.Cmds, k02Cmd{Op: "launch", Prog: r.N(2), Pick: r.U64()})
						break
					}
					fallthrough
				default:
					for j := r.Rg(1, 4); j > 0; j-- {
						a.Cmds = append(a.Cmds, k02Cmd{Op: bias, Pick: r.U64()})
					}
				}
			}
			return &Case{Src: []byte(src), Args: mkArgs(a)}
		}
	}
	register(&Check{
		ID:   "K02",
		Rule: "a debug session is driven in lockstep with a simulation of the same file; after the commands, threads, frames, scopes and variables (with random paging) and each stop event are compared. Non-trivial: at least two commands were compared; distinct by session.",
		Gens: []GenSpec{
			{Name: "flow", Quick: 1800, Thorough: 40000, Make: mk(func(r *Rng) string { return genFlow(r, r.Rg(1, 4), r.P(1, 3)) }, 14)},
			{Name: "calls", Quick: 1200, Thorough: 25000, Make: mk(genCalls, 18)},
			{Name: "any", Quick: 700, Thorough: 15000, Make: mk(genAny, 8)},
			{Name: "long", Quick: 60, Thorough: 1500, Make: func(r *Rng, i int) *Case {
				c := mk(genLong, 6)(r, i)
				var a k02Args
				c.args(&a)
				a.Long = true
				a.Cmds = append(a.Cmds, k02Cmd{Op: "continue", Pick: r.U64()})
				c.Args = mkArgs(a)
				return c
			}},
			{Name: "deep", Quick: 12, Thorough: 300, Make: func(r *Rng, i int) *Case {
				return mk(func(r *Rng) string {
					s := "#pragma version 9\nint 7\n"
					for k := r.Rg(4, 9); k > 0; k-- {
						s += pick(r, []string{"", "int 5\n", "byte \"x\"\n"}) + fmt.Sprintf("dupn %d\n", r.Rg(200, 255))
					}
					return s + "int 0\nbz e\nint 3\ne:\nint 1\nint 2\nint 3\nreturn\n"
				}, 8)(r, i)
			}},
			{Name: "small", Quick: 500, Thorough: 8000, Make: mk(func(r *Rng) string { return genDebuggee(r, 3000) }, 8)},
		},
		Require: []string{"states compared", "variables compared", "call stacks", "breakpoints hit", "stops: entry", "stops: step", "stops: breakpoint", "stops: exception", "stops: pause"},
		Run:     runMirror,
		Assume:  []string{"the mirror is the tree's own simulator: what the simulator does is decided by V01-V05"},
	})
}
