package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

// Editor features: navigation, highlighting, quick fixes, hints (J05 to J09).

const docUri = "file:///w/p.teal"

func genEditable(r *Rng) string {
	var s string
	switch r.N(8) {
	case 0:
		s = genMutated(r)
	case 1, 2:
		s = genOpLines(r, r.Rg(1, 14), pick(r, []int{0, 20, 50}))
	case 3, 4:
		s = genValid(r, validOpts{n: r.Rg(0, 16), version: uint64(r.Rg(1, 10)), sig: r.P(1, 5), sloppy: r.P(1, 2), mixedEol: r.P(1, 3)})
	case 5:
		s = genTokenSoup(r)
	default:
		s = genControl(r, cfOpts{n: r.Rg(1, 16), labels: r.Rg(1, 5), plain: []string{"int 1", "pop", "byte 0x41", "proto 1 2", "txn 0", "gtxn 0 1"}, noise: true, dups: r.P(1, 2), missing: true, surplus: true, version: r.N(9), switches: true})
	}
	return utf8Text(s)
}

type pt struct{ l, c int }

// cursorPoints chooses positions in a text: every column of a small one, else a sample.
func cursorPoints(r *Rng, p *rProg, max int) []pt {
	var all []pt
	for i, t := range lineTexts(p.Src) {
		for c := 0; c <= len(t)+1; c++ {
			all = append(all, pt{i, c})
		}
	}
	all = append(all, pt{len(p.Lines), 0}, pt{len(p.Lines) + 3, 2})
	if len(all) <= max {
		return all
	}
	var out []pt
	for k := 0; k < max; k++ {
		if k%2 == 0 && len(p.Toks) > 0 { // edges of tokens
			t := pick(r, p.Toks)
			out = append(out, pt{t.Line, pick(r, []int{t.B - 1, t.B, t.E - 1, t.E, t.E + 1})})
		} else {
			out = append(out, pick(r, all))
		}
	}
	for i := range out {
		if out[i].c < 0 {
			out[i].c = 0
		}
	}
	return out
}

func rangeKey(l, b, e int) string { return jRange{jPos{l, b}, jPos{l, e}}.String() }

func touches(t rTok, l, c int) bool { return t.Line == l && t.B <= c && c <= t.E }

func hasQuotedLabel(p *rProg) bool {
	for _, s := range p.Syms {
		if strings.Contains(s.Tok.Raw, `"`) {
			return true
		}
	}
	for _, t := range p.Refs {
		if strings.Contains(t.Raw, `"`) {
			return true
		}
	}
	return false
}

// namedAt returns the label whose definition or reference the cursor touches.
func namedAt(p *rProg, q pt) (name string, isDef, isRef bool) {
	for _, s := range p.Syms {
		if touches(s.Tok, q.l, q.c) {
			return s.Name, true, false
		}
	}
	for _, t := range p.Refs {
		if touches(t, q.l, q.c) {
			return t.Val, false, true
		}
	}
	return "", false, false
}

func init() {
	register(&Check{
		ID:   "J05",
		Rule: "a program is opened and navigation, highlighting and rename are requested at its cursor positions; the answers are compared with an independent symbol table, rename edits are applied and the result re-analysed. Non-trivial: the program has a label with a definition and a reference; distinct by program.",
		Gens: []GenSpec{
			gsrc("programs", 2500, 40000, genEditable),
			gsrc("layout", 400, 8000, genLayout),
			{Name: "large", Quick: 24, Thorough: 600, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genSized(r, i, false, 3))) }},
			gsrc("labels", 1500, 30000, func(r *Rng) string {
				return genControl(r, cfOpts{n: r.Rg(2, 10), labels: r.Rg(1, 5), plain: []string{"int 1"}, noise: r.P(1, 2), dups: r.P(1, 2), missing: r.P(1, 2), surplus: r.P(1, 3), version: 8, switches: true})
			}),
		},
		Known: []Finding{{"utf16-columns", func() string {
			// a client that follows the protocol counts columns in UTF-16 units
			const text = "#pragma version 8\nint 0\nswitch \u00e9 b\n\u00e9:\nb:\n"
			s := newSess(nil)
			s.tell("textDocument/didOpen", opened(docUri, text))
			rp := tpos(docUri, 4, 0)
			rp["newName"] = "c"
			id := s.ask("textDocument/rename", rp)
			var we struct{ Changes map[string][]jEdit }
			if ans := s.run(&Obs{}); ans == nil || json.Unmarshal(ans[id].Result, &we) != nil {
				return ""
			}
			for _, e := range we.Changes[docUri] {
				if e.Range.Start.Line == 2 && e.Range.Start.Character == 10 {
					return "columns sent to the editor count bytes, not UTF-16 units: renaming b in `switch \u00e9 b` edits one column too far"
				}
			}
			return ""
		}}},
		Require: []string{"definitions asked", "renames applied", "highlights", "positions elsewhere", "outline entries", "reference counters"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(utf8Text(string(c.Src)))
			if p.Syntax || hasQuotedLabel(p) {
				o.count("skipped", 1)
				return
			}
			r := NewRng(mix("J05", utf8Text(string(c.Src))))
			lens := r.P(9, 10)
			var opts interface{}
			if !lens {
				opts = J{"lensRefs": false}
			}
			s := newSess(opts)
			s.tell("textDocument/didOpen", opened(docUri, p.Src))
			outline := s.ask("textDocument/documentSymbol", tdoc(docUri))
			lensId := s.ask("textDocument/codeLens", tdoc(docUri))
			type probe struct {
				q                    pt
				def, high, prep, ren int
			}
			newName := pick(r, []string{"renamed", "zz_9", "ü", "a:b"})
			var ps []probe
			for _, q := range cursorPoints(r, p, 60) {
				x := probe{q: q}
				x.def = s.ask("textDocument/definition", tpos(docUri, q.l, q.c))
				x.high = s.ask("textDocument/documentHighlight", tpos(docUri, q.l, q.c))
				x.prep = s.ask("textDocument/prepareRename", tpos(docUri, q.l, q.c))
				rp := tpos(docUri, q.l, q.c)
				rp["newName"] = newName
				x.ren = s.ask("textDocument/rename", rp)
				ps = append(ps, x)
			}
			ans := s.run(o)
			if ans == nil {
				return
			}
			dec := func(id int, v interface{}) bool {
				if len(ans[id].Error) > 0 {
					o.bad("request failed: %s", ans[id].Error)
					return false
				}
				if err := json.Unmarshal(ans[id].Result, v); err != nil {
					o.bad("unexpected result %.200s", ans[id].Result)
					return false
				}
				return true
			}
			// outline
			var syms []struct {
				Name                  string
				Range, SelectionRange jRange
			}
			if dec(outline, &syms) {
				var got, want []string
				for _, x := range syms {
					got = append(got, x.Name+" "+x.Range.String()+" "+x.SelectionRange.String())
				}
				for _, x := range p.Syms {
					k := rangeKey(x.Tok.Line, x.Tok.B, x.Tok.E)
					want = append(want, x.Name+" "+k+" "+k)
				}
				o.sameSet("outline", got, want)
				o.count("outline entries", len(want))
			}
			var lz []struct {
				Range   jRange
				Command struct{ Title string }
			}
			if dec(lensId, &lz) {
				cnt := map[string]int{}
				for _, t := range p.Refs {
					cnt[t.Val]++
				}
				var got, want []string
				for _, x := range lz {
					got = append(got, fmt.Sprintf("%d-%d %s", x.Range.Start.Line, x.Range.End.Line, sigNumbers(x.Command.Title)))
				}
				if lens {
					for _, x := range p.Syms {
						if cnt[x.Name] > 0 {
							want = append(want, fmt.Sprintf("%d-%d %d", x.Tok.Line, x.Tok.Line, cnt[x.Name]))
						}
					}
				}
				o.sameSet("reference counters", got, want)
				o.count("reference counters", len(want))
			}
			renamed := map[string]bool{}
			for _, x := range ps {
				name, isDef, isRef := namedAt(p, x.q)
				var defs, occ []string
				if name != "" {
					for _, d := range p.Syms {
						if d.Name == name {
							k := rangeKey(d.Tok.Line, d.Tok.B, d.Tok.B+len(d.Name))
							defs = append(defs, k)
							occ = append(occ, k)
						}
					}
					for _, t := range p.Refs {
						if t.Val == name {
							occ = append(occ, rangeKey(t.Line, t.B, t.E))
						}
					}
				}
				where := fmt.Sprintf("at line %d column %d (label %q): ", x.q.l, x.q.c, name)
				var ls []struct {
					Uri   string
					Range jRange
				}
				if !isDef && dec(x.def, &ls) {
					var got []string
					for _, l := range ls {
						if l.Uri != docUri {
							o.bad("%sdefinition in another document %q", where, l.Uri)
						}
						got = append(got, l.Range.String())
					}
					var want []string
					if isRef {
						want = defs
						o.count("definitions asked", 1)
					}
					o.sameSet(where+"definitions", got, want)
				}
				var hs []struct{ Range jRange }
				if dec(x.high, &hs) {
					var got []string
					for _, h := range hs {
						got = append(got, h.Range.String())
					}
					o.sameSet(where+"highlights", got, occ)
					o.count("highlights", len(occ))
				}
				var pr *struct {
					Range       *jRange
					Placeholder *string
				}
				if dec(x.prep, &pr) {
					switch {
					case name == "":
						if pr != nil && pr.Range != nil {
							o.bad("%srename offered for %v", where, *pr.Range)
						}
						o.count("positions elsewhere", 1)
					case pr == nil || pr.Range == nil || pr.Placeholder == nil || *pr.Placeholder != name:
						o.bad("%srename not offered: %s", where, ans[x.prep].Result)
					default:
						g := pr.Range.String()
						ok := false
						for _, k := range occ {
							if k == g && pr.Range.Start.Line == x.q.l && pr.Range.Start.Character <= x.q.c && x.q.c <= pr.Range.End.Character+1 {
								ok = true
							}
						}
						if !ok {
							o.bad("%srename offered for the wrong range %s", where, g)
						}
					}
				}
				var we *struct{ Changes map[string][]jEdit }
				if dec(x.ren, &we) {
					var got []string
					var es []jEdit
					if we != nil {
						for u, xs := range we.Changes {
							if u != docUri && len(xs) > 0 {
								o.bad("%srename edits another document %q", where, u)
							}
							es = append(es, xs...)
						}
					}
					for _, e := range es {
						if e.NewText != newName {
							o.bad("%srename inserts %q", where, e.NewText)
						}
						got = append(got, e.Range.String())
					}
					o.sameSet(where+"rename edits", got, occ)
					if name != "" && !renamed[name] {
						renamed[name] = true
						nt, err := applyEdits(p.Src, es)
						if err != nil {
							o.bad("%s%v", where, err)
							continue
						}
						o.count("renames applied", 1)
						if name == "b64" || name == "base64" {
							// the word makes what follows it a constant
							o.count("encoding keywords renamed", 1)
							continue
						}
						checkRenamed(p, nt, name, newName, o)
						if len(defs) > 0 && len(occ) > len(defs) {
							o.nontrivial = true
						}
					}
				}
			}
		},
	})
}

// checkRenamed: the new text analyses like the old one with the label renamed.
func checkRenamed(p *rProg, text, name, newName string, o *Obs) {
	a, b := teal.Process(p.Src), teal.Process(text)
	if len(a.Listing) != len(b.Listing) {
		o.bad("renaming %q to %q changes the number of lines", name, newName)
		return
	}
	clash := len(p.defs()[newName]) > 0
	for _, t := range p.Refs {
		clash = clash || t.Val == newName
	}
	ca, cb := canonListing(a.Listing), canonListing(b.Listing)
	q, nq := strconv.Quote(name), strconv.Quote(newName)
	for i := range ca {
		in := &p.Lines[i].Inst
		want := ca[i]
		use := in.Mnem == "label" && in.Text == name
		for _, l := range in.Labels {
			use = use || l == name
		}
		if use {
			want = strings.ReplaceAll(want, q, nq)
		}
		if cb[i] != want {
			o.bad("renaming %q to %q: line %d reads %s, expected %s", name, newName, i, cb[i], want)
		}
	}
	if clash {
		return
	}
	key := func(res *teal.ProcessResult, from, to string) []string {
		var ks []string
		for _, d := range res.Diagnostics {
			ks = append(ks, fmt.Sprintf("%d %s", d.Line(), d.Rule()))
		}
		return ks
	}
	o.sameSet(fmt.Sprintf("findings after renaming %q to %q", name, newName), key(b, "", ""), key(a, "", ""))
}

// ---------------------------------------------------------------- J06

var roleType = map[string]string{"op": "keyword", "key": "keyword", "num": "number", "str": "string", "ref": "string", "macro": "macro", "label": "method", "comment": "comment"}

func init() {
	register(&Check{
		ID:   "J06",
		Rule: "a program is opened and its semantic tokens requested; the decoded stream is compared with an independent classification of the source tokens. Non-trivial: at least three kinds of token; distinct by program.",
		Gens: []GenSpec{
			gsrc("programs", 8000, 150000, genEditable),
			gsrc("layout", 1500, 40000, genLayout),
			{Name: "large", Quick: 36, Thorough: 900, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genLarge(r, i, false))) }},
			gsrc("any", 2000, 50000, func(r *Rng) string { return utf8Text(genAny(r)) }),
			{Name: "each-opcode", Quick: 2 * len(refOpNames), Thorough: 20 * len(refOpNames), Make: func(r *Rng, i int) *Case {
				op := refOps[refOpNames[i%len(refOpNames)]]
				v := uint64(pick(r, []int{10, 10, 9, 5}))
				var sb strings.Builder
				fmt.Fprintf(&sb, "#pragma version %d\n", v)
				for k := 0; k < 6; k++ {
					sb.WriteString(opLine(r, op, opndOpts{version: v, labels: labelPool, byNum: true}, false) + "\n")
				}
				return srcCase(utf8Text(sb.String()))
			}},
		},
		Require: []string{"role op", "role num", "role str", "role key", "role macro", "role ref", "role label", "role comment"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(utf8Text(string(c.Src)))
			if p.Syntax {
				o.count("skipped", 1)
				return
			}
			s := newSess(nil)
			s.tell("textDocument/didOpen", opened(docUri, p.Src))
			id := s.ask("textDocument/semanticTokens/full", tdoc(docUri))
			ans := s.run(o)
			if ans == nil {
				return
			}
			var caps struct {
				Capabilities struct {
					SemanticTokensProvider *struct {
						Legend struct{ TokenTypes []string }
					}
				}
			}
			json.Unmarshal(ans[1].Result, &caps)
			if caps.Capabilities.SemanticTokensProvider == nil {
				o.bad("no legend announced")
				return
			}
			legend := caps.Capabilities.SemanticTokensProvider.Legend.TokenTypes
			var data struct{ Data []int64 }
			if json.Unmarshal(ans[id].Result, &data) != nil || len(data.Data)%5 != 0 {
				o.bad("not a token stream: %.200s", ans[id].Result)
				return
			}
			type tk struct {
				l, b, e int
				t       string
			}
			var got []tk
			l, b := 0, 0
			prevEnd, prevLine := 0, -1
			for i := 0; i < len(data.Data); i += 5 {
				d := data.Data[i : i+5]
				if d[0] < 0 || d[1] < 0 || d[2] < 0 || d[0] > 1<<31 || d[1] > 1<<31 || d[2] > 1<<31 {
					o.bad("token %d has a negative or overflowed offset %v", i/5, d)
					return
				}
				if d[0] > 0 {
					l += int(d[0])
					b = int(d[1])
				} else {
					b += int(d[1])
				}
				t := "?"
				if d[3] >= 0 && int(d[3]) < len(legend) {
					t = legend[d[3]]
				}
				x := tk{l, b, b + int(d[2]), t}
				if x.l == prevLine && x.b < prevEnd {
					o.bad("tokens overlap at line %d column %d", x.l, x.b)
				}
				prevEnd, prevLine = x.e, x.l
				got = append(got, x)
			}
			var want []string
			rejected := map[int]bool{}
			at := map[string]string{} // rejected lines: possible tokens
			kinds := map[string]bool{}
			add := func(t rTok, role string) {
				want = append(want, rangeKey(t.Line, t.B, t.E)+" "+roleType[role])
				o.count("role "+role, 1)
				kinds[role] = true
			}
			for i := range p.Lines {
				ln := &p.Lines[i]
				rejected[i] = ln.Err
				for _, t := range ln.All {
					if t.Kind == "Comment" {
						add(t, "comment")
					} else if ln.Err {
						at[rangeKey(t.Line, t.B, t.E)] = ""
					}
				}
				if ln.Err {
					// the opcode and label operands of a rejected line keep their roles
					for _, ro := range ln.Roles {
						at[rangeKey(ro.Tok.Line, ro.Tok.B, ro.Tok.E)] = roleType[ro.Kind]
					}
					continue
				}
				for _, ro := range ln.Roles {
					add(ro.Tok, ro.Kind)
				}
			}
			var have []string
			for _, x := range got {
				k := rangeKey(x.l, x.b, x.e)
				if rejected[x.l] && x.t != "comment" {
					t, ok := at[k]
					if !ok || t != "" && t != x.t {
						o.bad("rejected line %d: token %s typed %s is not such a token of the line", x.l, k, x.t)
					}
					o.count("tokens on rejected lines", 1)
					continue
				}
				have = append(have, k+" "+x.t)
			}
			o.sameSet("semantic tokens", have, want)
			o.nontrivial = len(kinds) >= 3
			o.seen(strings.Join(want, ";"))
		},
	})
}

// ---------------------------------------------------------------- J07

type codeAct struct {
	Title   string
	Command struct {
		Command   string
		Arguments []json.RawMessage
	}
}

func (a codeAct) key() string {
	k := a.Command.Command
	for _, x := range a.Command.Arguments {
		k += " " + canonJSON(x, false)
	}
	return k
}

// refHints: numbers that name a field, and hex constants that are printable text.
func refHints(p *rProg) (named, decoded []rHint) {
	for i := range p.Lines {
		l := &p.Lines[i]
		if l.Op == nil || len(l.Toks) == 0 {
			continue
		}
		for k, t := range l.Toks {
			if k == 0 || len(l.Op.Args) == 0 {
				continue
			}
			idx := k - 1
			if idx < len(l.Op.Args) {
				a := l.Op.Args[idx]
				if n, ok := isU8(t.Val); ok {
					if f, ok := refFieldByNum[a.Kind][n]; ok && uint64(f.Version) <= l.Version {
						named = append(named, rHint{t, f.Name})
					}
				}
			}
			last := len(l.Op.Args) - 1
			if idx > last && l.Op.Args[last].Array {
				idx = last
			}
			if idx <= last && l.Op.Args[idx].Kind == "bytes" && strings.HasPrefix(t.Raw, "0x") {
				switch l.Toks[k-1].Val {
				case "base32", "b32", "base64", "b64":
					continue
				}
				if b, ok := unhex(t.Raw[2:]); ok {
					print := true
					for _, x := range b {
						if x < 0x20 || x > 0x7e {
							print = false
						}
					}
					if print {
						decoded = append(decoded, rHint{t, string(b)})
					}
				}
			}
		}
	}
	return
}

type rHint struct {
	Tok  rTok
	Text string
}

func unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(s); i += 2 {
		n, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil || s[i] == '+' || s[i] == '-' {
			return nil, false
		}
		out = append(out, byte(n))
	}
	return out, true
}

// meets: a token and a range of text share a position (ends included).
func meets(t rTok, a, b pt) bool {
	before := func(l1, c1, l2, c2 int) bool { return l1 < l2 || l1 == l2 && c1 < c2 }
	return !before(t.Line, t.E, a.l, a.c) && !before(b.l, b.c, t.Line, t.B)
}

// refActions: the fixes to be offered for a range.
func refActions(p *rProg, a, b pt) []string {
	var out []string
	add := func(cmd string, arg J) {
		arg["uri"] = docUri
		out = append(out, cmd+" "+canonJSON(mkArgs(arg), false))
	}
	for _, f := range refLint(p.insts()) {
		if (f.Rule == "LINT0002" || f.Rule == "LINT0004") && a.l <= f.Line && f.Line <= b.l {
			add("teal.line.remove", J{"line": f.Line})
		}
	}
	defs := p.defs()
	for _, t := range p.Refs {
		if len(defs[t.Val]) == 0 && meets(t, a, b) {
			add("teal.label.create", J{"name": t.Val})
		}
	}
	named, decoded := refHints(p)
	for _, h := range named {
		if meets(h.Tok, a, b) {
			add("teal.value.replace", J{"name": h.Text, "range": jrange(h.Tok.Line, h.Tok.B, h.Tok.Line, h.Tok.E)})
		}
	}
	for _, h := range decoded {
		if meets(h.Tok, a, b) {
			add("teal.value.replace", J{"name": `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(h.Text) + `"`, "range": jrange(h.Tok.Line, h.Tok.B, h.Tok.Line, h.Tok.E)})
		}
	}
	for i := range p.Lines {
		l := &p.Lines[i]
		if l.Need == 0 {
			continue
		}
		span := l.Toks[0]
		span.E = l.Toks[len(l.Toks)-1].E
		if meets(span, a, b) {
			add("teal.version.update", J{"version": l.Need, "line": i})
		}
	}
	return out
}

func genFixable(r *Rng) string {
	var sb strings.Builder
	v := uint64(r.Rg(1, 9))
	eol := pick(r, []string{"\n", "\n", "\r\n", "\r"})
	if r.P(1, 8) {
		sb.WriteString("//#pragma mode logicsig" + eol)
	}
	switch r.N(5) {
	case 0:
		v = 1
	default:
		if r.P(1, 6) {
			sb.WriteString("// head" + eol)
		}
		fmt.Fprintf(&sb, "%s#pragma version %d%s", pick(r, []string{"", " ", "\t"}), v, eol)
	}
	labels := []string{"a", "bb", "missing", "c:d", "é"}
	several := r.P(1, 8)
	for n := r.Rg(1, 10); n > 0; n-- {
		if several && r.P(1, 4) {
			sb.WriteString("#pragma version " + pick(r, []string{"1", "2", "4", "7", "8", "10", "0x5", "300", "0", "x"}) + eol)
		}
		switch r.N(9) {
		case 0:
			sb.WriteString(pick(r, labels[:2]) + ":")
		case 1:
			sb.WriteString("b " + pick(r, labels))
		case 2:
			l := pick(r, labels[:2])
			sb.WriteString("b " + l + eol + pick(r, []string{"", "// c" + eol, eol}) + l + ":")
		case 3:
			sb.WriteString(pick(r, []string{"byte ", "pushbytes ", "bytecblock 0x4142 ", "pushbytess ", "int ", "method ", "byte base64 "}) + "0x" + fmt.Sprintf("%x", pick(r, []string{"abc", `a"b\c`, "//x", " ", "", "\n", "~", "0x41", "é", "a\\", `"`})))
		case 4:
			k := pick(r, []string{"txn", "txna", "gtxn", "gtxna", "gtxns", "gtxnsa", "itxn", "itxna", "itxn_field", "global", "asset_params_get", "asset_holding_get", "app_params_get", "acct_params_get", "block", "base64_decode", "json_ref", "ecdsa_verify", "vrf_verify", "gitxn", "gitxna", "txnas", "gtxnas", "gtxnsas", "itxnas", "gitxnas", "ecdsa_pk_recover"})
			sb.WriteString(fieldLine(refOps[k], strconv.Itoa(pick(r, []int{0, 1, 2, 3, r.N(70), r.N(16), 255}))))
		default:
			op := refOps[pick(r, refOpNames)]
			sb.WriteString(opLine(r, op, opndOpts{version: 10, labels: labels, byNum: true}, r.P(1, 8)))
		}
		if n > 1 || r.P(1, 2) {
			sb.WriteString(eol)
		}
	}
	return utf8Text(sb.String())
}

func init() {
	register(&Check{
		ID:   "J07",
		Rule: "code actions are requested for the whole document and for parts of it and compared with the findings of an independent analysis; every offered action is executed, its edits are applied to the text and the result is analysed again. Non-trivial: at least one action was executed; distinct by program.",
		Gens: []GenSpec{
			gsrc("fixable", 4000, 80000, genFixable),
			gsrc("layout", 500, 10000, genLayout),
			{Name: "large", Quick: 24, Thorough: 600, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genSized(r, i, false, 3))) }},
			gsrc("programs", 1500, 30000, genEditable),
		},
		Require: []string{"teal.line.remove", "teal.label.create", "teal.value.replace", "teal.version.update", "version updates among several directives", "ranges"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(utf8Text(string(c.Src)))
			if p.Syntax || hasQuotedLabel(p) || mixedCR(p.Src) {
				o.count("skipped", 1)
				return
			}
			r := NewRng(mix("J07", utf8Text(string(c.Src))))
			n := len(p.Lines)
			type rg struct {
				a, b pt
				id   int
			}
			rs := []rg{{a: pt{0, 0}, b: pt{n + 1, 0}}}
			for k := 0; k < 8; k++ {
				q := cursorPoints(r, p, 2)
				a := q[r.N(len(q))]
				b := q[r.N(len(q))]
				if r.P(1, 3) {
					b = a
				}
				if b.l < a.l || b.l == a.l && b.c < a.c {
					a, b = b, a
				}
				rs = append(rs, rg{a: a, b: b})
			}
			s := newSess(nil)
			s.tell("textDocument/didOpen", opened(docUri, p.Src))
			for i := range rs {
				pr := tdoc(docUri)
				pr["range"] = jrange(rs[i].a.l, rs[i].a.c, rs[i].b.l, rs[i].b.c)
				pr["context"] = J{"diagnostics": []J{}}
				rs[i].id = s.ask("textDocument/codeAction", pr)
			}
			ans := s.run(o)
			if ans == nil {
				return
			}
			var whole []codeAct
			for i, x := range rs {
				var as []codeAct
				if json.Unmarshal(ans[x.id].Result, &as) != nil {
					o.bad("not a list of actions: %.200s", ans[x.id].Result)
					return
				}
				if i == 0 {
					whole = as
				}
				var got []string
				for _, a := range as {
					if a.Title == "" {
						o.bad("an action without a title")
					}
					got = append(got, a.key())
				}
				o.sameSet(fmt.Sprintf("actions for %d.%d-%d.%d", x.a.l, x.a.c, x.b.l, x.b.c), got, refActions(p, x.a, x.b))
				o.count("ranges", 1)
			}
			if len(o.problems) > 0 {
				return
			}
			// execute every action of the whole document
			s = newSess(nil)
			s.tell("textDocument/didOpen", opened(docUri, p.Src))
			var ids []int
			for _, a := range whole {
				ids = append(ids, s.ask("workspace/executeCommand", J{"command": a.Command.Command, "arguments": a.Command.Arguments}))
			}
			if ans = s.run(o); ans == nil {
				return
			}
			directives, misplaced, needed := 0, false, false
			for i := range p.Lines {
				if l := &p.Lines[i]; len(l.Toks) > 0 && l.Toks[0].Val == "#pragma" {
					directives++
					misplaced = misplaced || l.Err || needed
				}
				needed = needed || p.Lines[i].Need > 0
			}
			for _, f := range refLint(p.insts()) {
				misplaced = misplaced || f.Rule == "LINT0006"
			}
			var caps struct {
				Capabilities struct {
					ExecuteCommandProvider struct{ Commands []string }
				}
			}
			json.Unmarshal(ans[1].Result, &caps)
			announced := strings.Join(caps.Capabilities.ExecuteCommandProvider.Commands, " ") + " "
			for i, a := range whole {
				if !strings.Contains(announced, a.Command.Command+" ") {
					o.bad("the command %s is offered but not announced", a.Command.Command)
				}
				es := ans[ids[i]].Edits
				if len(es) != 1 {
					o.bad("%s: %d edit requests", a.key(), len(es))
					continue
				}
				var ae struct {
					Edit struct {
						DocumentChanges []struct {
							TextDocument struct{ Uri string }
							Edits        []jEdit
						}
						Changes map[string][]jEdit
					}
				}
				if json.Unmarshal(es[0], &ae) != nil {
					o.bad("malformed edit request %.200s", es[0])
					continue
				}
				edits := ae.Edit.Changes[docUri]
				for _, d := range ae.Edit.DocumentChanges {
					if d.TextDocument.Uri != docUri {
						o.bad("%s edits another document %q", a.key(), d.TextDocument.Uri)
					}
					edits = append(edits, d.Edits...)
				}
				text, err := applyEdits(p.Src, edits)
				if err != nil {
					o.bad("%s: %v", a.key(), err)
					continue
				}
				checkFix(p, a, text, directives <= 1 && !misplaced, o)
				o.nontrivial = true
			}
		},
	})
}

// mixedCR: removing a line between a lone CR and an LF would join the two into one line end.
func mixedCR(s string) bool {
	t := strings.ReplaceAll(s, "\r\n", "")
	return strings.Contains(t, "\r") && strings.Contains(s, "\n")
}

// checkFix: the finding is gone and every other line reads as before.
func checkFix(p *rProg, a codeAct, text string, oneDirective bool, o *Obs) {
	var arg struct {
		Line    int
		Name    string
		Version uint64
		Range   jRange
	}
	if len(a.Command.Arguments) != 1 || json.Unmarshal(a.Command.Arguments[0], &arg) != nil {
		o.bad("%s: malformed arguments", a.key())
		return
	}
	old, nw := teal.Process(p.Src), teal.Process(text)
	co, cn := canonListing(old.Listing), canonListing(nw.Listing)
	cmd := a.Command.Command
	o.count(cmd, 1)
	same := func(i, j int) { // old line i is new line j
		if j >= len(cn) {
			o.bad("%s: line %d is gone; text now %q", a.key(), i, text)
			return
		}
		if co[i] != cn[j] && !(p.Lines[i].Err && cmd == "teal.version.update") {
			o.bad("%s: line %d read %s, now %s; text now %q", a.key(), i, co[i], cn[j], text)
		}
	}
	switch cmd {
	case "teal.line.remove":
		st := lineStarts(p.Src)
		end := len(p.Src)
		if arg.Line+1 < len(st) {
			end = st[arg.Line+1]
		}
		if want := p.Src[:st[arg.Line]] + p.Src[end:]; text != want {
			o.bad("%s: text now %q, expected %q", a.key(), text, want)
		}
		for i := range co {
			if i < arg.Line {
				same(i, i)
			} else if i > arg.Line {
				same(i, i-1)
			}
		}
	case "teal.label.create":
		for i := range co {
			same(i, i)
		}
		for _, t := range nw.MissRefs {
			if t.String() == arg.Name {
				o.bad("%s: the label is still missing; text now %q", a.key(), text)
			}
		}
		if k := len(nw.SymByName(arg.Name)); k != 1 {
			o.bad("%s: the label is defined %d times; text now %q", a.key(), k, text)
		}
		if len(nw.Symbols) != len(old.Symbols)+1 {
			o.bad("%s: %d labels, before %d", a.key(), len(nw.Symbols), len(old.Symbols))
		}
	case "teal.version.update":
		shift := len(nw.Listing) - len(old.Listing)
		if shift != 0 && shift != 1 {
			o.bad("%s: the number of lines changes by %d", a.key(), shift)
			return
		}
		for i := range co {
			if p.Lines[i].Inst.Mnem != "#pragma" {
				same(i, i+shift)
			}
		}
		if oneDirective && nw.Version != arg.Version {
			o.bad("%s: the version is now %d; text now %q", a.key(), nw.Version, text)
		}
		for i := range p.Lines {
			if i == arg.Line || oneDirective && p.Lines[i].Need > 0 && p.Lines[i].Need <= arg.Version {
				for _, d := range nw.Diagnostics {
					if d.Rule() == "LINT0007" && d.Line() == i+shift {
						o.bad("%s: line %d is still unavailable; text now %q", a.key(), i, text)
					}
				}
			}
		}
		// a directive rejected for its value, or below a rejected line, may now be seen to be misplaced
		was := map[int]bool{}
		for i := range p.Lines {
			if p.Lines[i].Err || i > arg.Line {
				was[i+shift] = true
			}
		}
		for _, d := range old.Diagnostics {
			if d.Rule() == "LINT0006" {
				was[d.Line()+shift] = true
			}
		}
		for _, d := range nw.Diagnostics {
			if d.Rule() == "LINT0006" && !was[d.Line()] {
				o.bad("%s: creates a misplaced directive; text now %q", a.key(), text)
			}
		}
		o.count("version updates verified", 1)
		if !oneDirective {
			o.count("version updates among several directives", 1)
		}
	case "teal.value.replace":
		if len(cn) != len(co) {
			o.bad("%s: the number of lines changes; text now %q", a.key(), text)
			return
		}
		li := arg.Range.Start.Line
		for i := range co {
			if i != li || !p.Lines[i].Err {
				same(i, i)
			}
		}
		if !p.Lines[li].Err {
			for _, d := range nw.Diagnostics {
				if d.Line() == li && (d.Rule() == "PARSE" || d.Rule() == "SYNTAX") {
					o.bad("%s: line %d is now rejected: %s; text now %q", a.key(), li, d.String(), text)
				}
			}
			o.count("replacements verified", 1)
		}
	}
}

// ---------------------------------------------------------------- J08

func fieldNames(kind string, version uint64) []string {
	var out []string
	for _, f := range availFields(kind, version) {
		out = append(out, f.Name+"="+strconv.Itoa(f.Value))
	}
	return out
}

// operandAt finds the operand index a cursor position means: on an operand, or after the last token.
func operandAt(l *rLine, c int) (int, bool) {
	n := 0
	idx := -1
	for k, t := range l.Toks {
		if t.B <= c && c <= t.E {
			n++
			if k > 0 {
				idx = k - 1
			}
		}
	}
	if n > 1 {
		return 0, false // between two adjacent tokens
	}
	if n == 1 {
		return idx, idx >= 0
	}
	if c > l.Toks[len(l.Toks)-1].E {
		return len(l.Toks) - 1, true
	}
	return 0, false
}

func init() {
	register(&Check{
		ID:   "J08",
		Rule: "a program is opened and completion, hover, signature help and inlay hints are requested at its cursor positions; the answers are compared with an independent reading of the program. Non-trivial: at least one operand position was asked about; distinct by program.",
		Gens: []GenSpec{
			gsrc("programs", 2500, 40000, genEditable),
			gsrc("layout", 500, 10000, genLayout),
			{Name: "large", Quick: 24, Thorough: 600, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genSized(r, i, false, 3))) }},
			gsrc("fixable", 1000, 20000, genFixable),
			{Name: "each-opcode", Quick: 4 * len(refOpNames), Thorough: 40 * len(refOpNames), Make: func(r *Rng, i int) *Case {
				op := refOps[refOpNames[i%len(refOpNames)]]
				v := uint64(r.Rg(1, 10))
				var sb strings.Builder
				if r.P(1, 4) {
					sb.WriteString("// #pragma mode logicsig\n")
				}
				fmt.Fprintf(&sb, "#pragma version %d\na:\n// about\nbb: proto\nproto 2 1\n", v)
				for k := 0; k < 4; k++ {
					l := opLine(r, op, opndOpts{version: 10, labels: []string{"a", "bb"}, byNum: true}, r.P(1, 4))
					if r.P(1, 3) {
						l = op.Name + pick(r, []string{" ", "", "  0 ", " 1 "})
					}
					if r.P(1, 6) {
						l = op.Name[:1+r.N(len(op.Name))]
					}
					sb.WriteString(l + "\n")
				}
				return srcCase(utf8Text(sb.String()))
			}},
		},
		Require: []string{"opcode completions", "operand completions", "label completions", "field hovers", "opcode hovers", "signatures", "named hints", "decoded hints"},
		Run:     runHelp,
	})
}

func runHelp(c *Case, o *Obs) {
	p := refAnalyse(utf8Text(string(c.Src)))
	if p.Syntax || hasQuotedLabel(p) {
		o.count("skipped", 1)
		return
	}
	r := NewRng(mix("J08", utf8Text(string(c.Src))))
	inNamed, inDec := r.P(4, 5), r.P(4, 5)
	opts := J{"inlayNamed": inNamed, "inlayDecoded": inDec}
	for k, on := range map[string]bool{"inlayNamed": inNamed, "inlayDecoded": inDec} {
		if on && mix("default", k, p.Src)%3 == 0 {
			delete(opts, k) // both are on unless switched off
		}
	}
	s := newSess(opts)
	s.tell("textDocument/didOpen", opened(docUri, p.Src))
	type probe struct {
		q              pt
		comp, hov, sig int
	}
	var ps []probe
	for _, q := range cursorPoints(r, p, 24) {
		ps = append(ps, probe{q, s.ask("textDocument/completion", tpos(docUri, q.l, q.c)), s.ask("textDocument/hover", tpos(docUri, q.l, q.c)), s.ask("textDocument/signatureHelp", tpos(docUri, q.l, q.c))})
	}
	type rg struct {
		a, b pt
		id   int
	}
	rs := []rg{{a: pt{0, 0}, b: pt{len(p.Lines) + 1, 0}}}
	for k := 0; k < 4; k++ {
		q := cursorPoints(r, p, 2)
		a, b := q[0], q[r.N(len(q))]
		if b.l < a.l || b.l == a.l && b.c < a.c {
			a, b = b, a
		}
		rs = append(rs, rg{a: a, b: b})
	}
	for i := range rs {
		pr := tdoc(docUri)
		pr["range"] = jrange(rs[i].a.l, rs[i].a.c, rs[i].b.l, rs[i].b.c)
		rs[i].id = s.ask("textDocument/inlayHint", pr)
	}
	ans := s.run(o)
	if ans == nil {
		return
	}
	// inlay hints
	named, decoded := refHints(p)
	for _, x := range rs {
		var hs []struct {
			Position jPos
			Label    string
		}
		if json.Unmarshal(ans[x.id].Result, &hs) != nil {
			o.bad("not a list of hints: %.200s", ans[x.id].Result)
			return
		}
		var got, want []string
		for _, h := range hs {
			got = append(got, fmt.Sprintf("%d.%d %q", h.Position.Line, h.Position.Character, h.Label))
		}
		put := func(hs []rHint, on bool, what string) {
			for _, h := range hs {
				if on && meets(h.Tok, x.a, x.b) {
					want = append(want, fmt.Sprintf("%d.%d %q", h.Tok.Line, h.Tok.E, h.Text))
					o.count(what, 1)
				}
			}
		}
		put(named, inNamed, "named hints")
		put(decoded, inDec, "decoded hints")
		o.sameSet(fmt.Sprintf("inlay hints for %d.%d-%d.%d", x.a.l, x.a.c, x.b.l, x.b.c), got, want)
	}
	for _, x := range ps {
		var l *rLine
		empty := true
		if x.q.l < len(p.Lines) {
			l = &p.Lines[x.q.l]
			empty = len(l.Toks) == 0
		}
		if !empty && l.Toks[0].Kind == "Comment" || l != nil && len(l.All) > len(l.Toks) && x.q.c >= l.All[len(l.Toks)].B {
			continue // inside a comment
		}
		where := fmt.Sprintf("line %d column %d: ", x.q.l, x.q.c)
		checkCompletion(p, l, empty, x.q, ans[x.comp], where, o)
		checkHover(p, l, empty, x.q, ans[x.hov], where, o)
		checkSignature(p, l, empty, x.q, ans[x.sig], where, o)
	}
}

func checkCompletion(p *rProg, l *rLine, empty bool, q pt, a lspAns, where string, o *Obs) {
	var items []struct {
		Label        string
		InsertText   string
		LabelDetails *struct{ Detail, Description string }

		InsertTextFormat int

		Documentation *struct{ Value string }
	}
	if json.Unmarshal(a.Result, &items) != nil {
		o.bad("%snot a completion list: %.200s %.200s", where, a.Result, a.Error)
		return
	}
	var got, want []string
	snips := ""
	if empty || q.c <= l.Toks[0].E {
		prefix := ""
		if !empty {
			prefix = l.Toks[0].Val
		}
		for _, it := range items {
			if it.Label == "" {
				continue
			}
			if it.Label == "soc" || it.Label == "func" {
				snips += it.Label + " "
				checkSnippet(it.Label, it.InsertText, where, o)
				if it.InsertTextFormat != 2 {
					o.bad("%s%s inserts placeholders as plain text", where, it.Label)
				}
				continue
			}
			d := ""
			if it.LabelDetails != nil {
				d = sigNumbers(it.LabelDetails.Description)
			}
			got = append(got, it.Label+" v"+d)
			if d, ok := refDocs[it.Label]; ok && (it.Documentation == nil || !strings.Contains(it.Documentation.Value, d.Doc)) {
				o.bad("%s%s is offered with another documentation than %.100q", where, it.Label, d.Doc)
			}
			if op := refOps[it.Label]; op != nil && (it.InsertText != "" || len(op.Args) > 0) {
				if w := snippetOf(op); it.InsertText != w {
					o.bad("%scompleting %s inserts %q, expected %q", where, it.Label, it.InsertText, w)
				}
				if len(op.Args) > 0 && it.InsertTextFormat != 2 {
					o.bad("%scompleting %s inserts placeholders as plain text", where, it.Label)
				}
			}
		}
		if snips != "soc func " && snips != "func soc " {
			o.bad("%ssnippets offered: %q", where, snips)
		}
		for _, n := range refOpNames {
			op := refOps[n]
			intro := op.App
			if p.Mode == "sig" {
				intro = op.Sig
			}
			if intro > 0 && uint64(intro) <= p.Version && strings.HasPrefix(n, prefix) {
				want = append(want, fmt.Sprintf("%s v%d", n, intro))
			}
		}
		o.sameSet(where+"opcodes offered", got, want)
		o.count("opcode completions", len(want))
		return
	}
	idx, ok := operandAt(l, q.c)
	if !ok {
		return
	}
	for _, it := range items {
		if it.Label != "" {
			v := ""
			if it.LabelDetails != nil {
				v = strings.TrimSpace(it.LabelDetails.Detail)
			}
			got = append(got, it.Label+"|"+v)
		}
	}
	if l.Op != nil && len(l.Op.Args) > 0 {
		last := len(l.Op.Args) - 1
		if idx > last && l.Op.Args[last].Array {
			idx = last
		}
		if idx <= last {
			switch k := l.Op.Args[idx].Kind; k {
			case "label":
				defs := p.defs()
				for _, s := range p.Syms {
					sig := ""
					if s.HasSig {
						sig = fmt.Sprintf("%d,%d", s.In, s.Out)
					}
					want = append(want, s.Name+"|"+sig)
				}
				for i := range got {
					k := strings.LastIndex(got[i], "|")
					got[i] = got[i][:k] + "|" + sigNumbers(got[i][k:])
				}
				o.count("label completions", len(want))
				for _, it := range items {
					if len(defs[it.Label]) == 1 {
						for _, s := range p.Syms {
							if s.Name == it.Label && (it.Documentation == nil || it.Documentation.Value != s.Docs) {
								o.bad("%slabel %q is offered with another documentation than %q", where, s.Name, s.Docs)
							}
						}
					}
				}
			case "int":
				for n, v := range refConsts {
					if n != "unknown" {
						want = append(want, fmt.Sprintf("%s|= %d", n, v))
					}
				}
				o.count("operand completions", len(want))
			default:
				for _, it := range items {
					if it.Label != "" && (it.Documentation == nil || !strings.Contains(it.Documentation.Value, refNotes[k+" "+it.Label])) {
						o.bad("%sfield %s is offered with another documentation than %.100q", where, it.Label, refNotes[k+" "+it.Label])
					}
				}
				for _, f := range availFields(k, p.Version) {
					want = append(want, fmt.Sprintf("%s|= %d", f.Name, f.Value))
				}
				o.count("operand completions", len(want))
			}
			o.nontrivial = true
		}
	}
	sort.Strings(want)
	o.sameSet(where+"values offered", got, want)
}

// snippetOf: the opcode with one numbered placeholder per operand.
func snippetOf(op *refOp) string {
	s := op.Name
	for i, a := range op.Args {
		s += fmt.Sprintf(" ${%d:%s}", i+1, a.Name)
	}
	return s
}

// refTypeNames: how signatures name the kinds of operands.
var refTypeNames = map[string]string{
	"int": "uint64", "u64": "uint64", "u8": "uint8", "i8": "int8", "bytes": "bytes", "label": "label name", "sig": "signature", "addr": "address",
	"txna": "transaction array field index", "txn": "transaction field index", "itxn": "internal transaction field index", "json": "json_Ref",
	"ecdsa": "ECDSA Curve", "global": "global field index", "holding": "asset holding field index", "asset": "asset params field index",
	"app": "app params field index", "acct": "account params field index", "vrf": "parameters index", "b64": "base64 encoding", "block": "block field", "ec": "EC group field index",
}

func refFullSig(op *refOp) string {
	var xs []string
	opt := false
	for _, a := range op.Args {
		s := refTypeNames[a.Kind] + " : " + a.Name
		if a.Array {
			s += ", ..."
		}
		s = "{" + s + "}"
		if a.Optional && !opt {
			opt = true
			s = "[" + s
		}
		xs = append(xs, s)
	}
	if opt {
		xs[len(xs)-1] += "]"
	}
	return strings.TrimSpace(op.Name + " " + strings.Join(xs, " "))
}

var placeholder = regexp.MustCompile(`\$\{\d+:([^}]*)\}|\$\{?\d+\}?`)

// checkSnippet: a multi-line snippet expands, with its default names, to code
// that analyses cleanly; the one for on-completion covers each action in order.
func checkSnippet(label, insert, where string, o *Obs) {
	code := placeholder.ReplaceAllString(insert, "$1")
	p := refAnalyse("#pragma version 8\n" + code)
	if p.hasErr() || p.Syntax {
		o.bad("%ssnippet %s expands to code that is not accepted: %q", where, label, code)
		return
	}
	defs := p.defs()
	for _, t := range p.Refs {
		if len(defs[t.Val]) != 1 {
			o.bad("%ssnippet %s: label %s is defined %d times", where, label, t.Val, len(defs[t.Val]))
		}
	}
	var ops []string
	for i := range p.Lines {
		if in := &p.Lines[i].Inst; in.Mnem != "" && in.Mnem != "label" && in.Mnem != "#pragma" {
			ops = append(ops, in.Mnem)
		}
	}
	switch label {
	case "soc":
		var refs []string
		for i := range p.Lines {
			if l := &p.Lines[i]; l.Inst.Mnem == "switch" {
				for _, t := range l.Toks[1:] {
					refs = append(refs, t.Val)
				}
				if i == 0 || p.Lines[i-1].Inst.Mnem != "txn" || p.Lines[i-1].Inst.Nums["Field"] != 25 {
					o.bad("%ssnippet soc does not switch on OnCompletion: %q", where, code)
				}
			}
		}
		if want := "noop optin closeout clearstate updateapplication deleteapplication"; strings.ToLower(strings.Join(refs, " ")) != want {
			o.bad("%ssnippet soc switches to %q, the actions are %q", where, refs, want)
		}
	case "func":
		if strings.Join(ops, " ") != "proto retsub" || len(p.Syms) != 1 || !p.Syms[0].HasSig {
			o.bad("%ssnippet func expands to %q", where, code)
		}
	}
	o.count("snippets", 1)
}

func checkHover(p *rProg, l *rLine, empty bool, q pt, a lspAns, where string, o *Obs) {
	var h *struct {
		Contents *struct{ Value string }
	}
	if json.Unmarshal(a.Result, &h) != nil {
		o.bad("%snot a hover: %.200s", where, a.Result)
		return
	}
	text := ""
	if h != nil && h.Contents != nil {
		text = h.Contents.Value
	}
	var on *rTok
	idx := 0
	n := 0
	if !empty {
		for k := range l.Toks {
			if touches(l.Toks[k], q.l, q.c) {
				on, idx = &l.Toks[k], k
				n++
			}
		}
	}
	if n > 1 {
		return
	}
	if on == nil {
		if text != "" {
			o.bad("%shover where there is nothing: %.100q", where, text)
		}
		return
	}
	if l.Op == nil {
		if text != "" {
			o.bad("%shover on an unknown opcode: %.100q", where, text)
		}
		return
	}
	if idx == 0 {
		if d, ok := refDocs[l.Op.Name]; ok && !(strings.Contains(text, d.Doc) && strings.Contains(text, d.Extra)) {
			o.bad("%shover on %s: %.100q, documented as %.100q %.100q", where, l.Op.Name, text, d.Doc, d.Extra)
		} else if !ok && text != "" {
			for n, d := range refDocs {
				if strings.Contains(text, d.Doc) {
					o.bad("%shover on %s has the text of %s", where, l.Op.Name, n)
				}
			}
		}
		o.count("opcode hovers", 1)
		return
	}
	last := len(l.Op.Args) - 1
	idx--
	if last >= 0 && idx > last && l.Op.Args[last].Array {
		idx = last
	}
	if idx > last {
		if text != "" {
			o.bad("%shover on surplus operand %s: %.100q", where, on.Raw, text)
		}
		return
	}
	kind := l.Op.Args[idx].Kind
	if kind == "txna" || kind == "itxn" {
		kind = "txn"
	}
	if _, isField := refFields[kind]; !isField {
		if text != "" {
			o.bad("%shover on operand %s: %.100q", where, on.Raw, text)
		}
		return
	}
	f, ok := refFieldByName[kind][on.Val]
	if !ok {
		if v, isN := isU8(on.Val); isN {
			f, ok = refFieldByNum[kind][v]
		}
	}
	if !ok {
		if text != "" {
			o.bad("%shover on operand %s, which is no field: %.100q", where, on.Raw, text)
		}
		return
	}
	first := strings.TrimRight(strings.SplitN(text, "\n", 2)[0], "\r")
	if first != fmt.Sprintf("%s = %d", f.Name, f.Value) {
		o.bad("%shover on field %s (%s): %.100q", where, on.Raw, f.Name, text)
	} else if !strings.Contains(text, refNotes[kind+" "+f.Name]) {
		o.bad("%shover on field %s (%s): %.100q, documented as %.100q", where, on.Raw, f.Name, text, refNotes[kind+" "+f.Name])
	}
	o.count("field hovers", 1)
}

func checkSignature(p *rProg, l *rLine, empty bool, q pt, a lspAns, where string, o *Obs) {
	var h *struct {
		Signatures []struct {
			Label           string
			Parameters      []struct{ Label string }
			ActiveParameter *int
		}
	}
	if json.Unmarshal(a.Result, &h) != nil {
		o.bad("%snot a signature help: %.200s", where, a.Result)
		return
	}
	n := 0
	if h != nil {
		n = len(h.Signatures)
	}
	if empty || l.Op == nil {
		if n > 0 {
			o.bad("%ssignature help where there is no instruction", where)
		}
		return
	}
	if n != 1 {
		o.bad("%s%d signatures for %s", where, n, l.Op.Name)
		return
	}
	sg := h.Signatures[0]
	if want := refFullSig(l.Op); strings.TrimSpace(sg.Label) != want {
		o.bad("%ssignature of %s is %q, expected %q", where, l.Op.Name, sg.Label, want)
	}
	var got, want []string
	for _, x := range sg.Parameters {
		got = append(got, x.Label)
	}
	for _, x := range l.Op.Args {
		want = append(want, x.Name)
	}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		o.bad("%sparameters of %s are %q, expected %q", where, l.Op.Name, got, want)
	}
	idx, ok := operandAt(l, q.c)
	last := len(l.Op.Args) - 1
	if ok && last >= 0 {
		if idx > last && l.Op.Args[last].Array {
			idx = last
		}
		if idx <= last && (sg.ActiveParameter == nil || *sg.ActiveParameter != idx) {
			o.bad("%sactive parameter of %s should be %d: %s", where, l.Op.Name, idx, a.Result)
		}
	}
	o.count("signatures", 1)
}

// ---------------------------------------------------------------- J09

// tokenRows: the tokens of every line that has any.
func tokenRows(src string) []string {
	var out []string
	for _, ts := range refLines(refLex(src)) {
		if len(ts) == 0 {
			continue
		}
		var row []string
		for _, t := range ts {
			raw := t.Raw
			if t.Kind == "Comment" {
				raw = strings.TrimRight(raw, " \t") // blanks at the end of a line are not kept
			}
			row = append(row, strconv.Quote(raw))
		}
		out = append(out, strings.Join(row, " "))
	}
	return out
}

// oddBlank: characters that other tools take for blanks or line ends but TEAL does not.
func oddBlank(s string) bool {
	for _, r := range s {
		switch r {
		case '\v', '\f', 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
			return true
		}
		if r >= 0x2000 && r <= 0x200a {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID:   "J09",
		Rule: "a document is formatted through the server, the edits are applied, and the tokens of its non-blank lines, the instructions and the findings are compared with the original; the result is formatted once more. Non-trivial: formatting changed the text; distinct by text.",
		Gens: []GenSpec{
			gsrc("programs", 5000, 100000, genEditable),
			{Name: "long-lines", Quick: 60, Thorough: 600, Make: func(r *Rng, i int) *Case {
				// around the longest line a scanner holds
				n := 65530 + i%12
				open, fill, shut := "// ", "c", ""
				switch i / 12 % 3 {
				case 1:
					open, fill, shut = "byte \"", "s", "\""
				case 2:
					open, fill = " b ", "n"
				}
				l := open + strings.Repeat(fill, n-len(open)-len(shut)) + shut
				return srcCase(pick(r, []string{"", "int 1\n", "\n"}) + l + pick(r, []string{"", "\n", "\r\n", "\nint 1"}))
			}},
			gsrc("layout", 1500, 30000, genLayout),
			{Name: "large", Quick: 36, Thorough: 900, Make: func(r *Rng, i int) *Case { return srcCase(utf8Text(genLarge(r, i, false))) }},
			gsrc("any", 2500, 50000, func(r *Rng) string { return utf8Text(genAny(r)) }),
			gsrc("examples", 60, 600, func(r *Rng) string { return utf8Text(pick(r, examples())) }),
		},
		Require: []string{"documents changed", "documents kept", "lines compared"},
		Run: func(c *Case, o *Obs) {
			src := utf8Text(string(c.Src))
			p := refAnalyse(src)
			if p.Syntax || oddBlank(src) {
				o.count("skipped", 1)
				return
			}
			text, ok := formatOnce(src, o)
			if !ok {
				return
			}
			a, b := tokenRows(src), tokenRows(text)
			for i := 0; i < len(a) || i < len(b); i++ {
				x, y := "nothing", "nothing"
				if i < len(a) {
					x = a[i]
				}
				if i < len(b) {
					y = b[i]
				}
				if x != y {
					o.bad("line with tokens %d was %s, is %s; text now %q", i, x, y, text)
					return
				}
			}
			o.count("lines compared", len(a))
			ra, rb := teal.Process(src), teal.Process(text)
			f := func(res *teal.ProcessResult) (out []string) {
				for _, s := range canonListing(res.Listing) {
					if s != "" {
						out = append(out, s)
					}
				}
				return
			}
			if x, y := f(ra), f(rb); strings.Join(x, "\n") != strings.Join(y, "\n") {
				o.bad("the program changed: %s", diffLine(strings.Join(x, "\n"), strings.Join(y, "\n")))
			}
			g := func(res *teal.ProcessResult) (out []string) {
				for _, d := range res.Diagnostics {
					out = append(out, d.Rule()+" "+d.Severity().String()+" "+d.String())
				}
				return
			}
			o.sameSet("findings after formatting", g(rb), g(ra))
			again, ok := formatOnce(text, o)
			if ok && again != text {
				o.bad("formatting again changes the text: %s", diffLine(text, again))
			}
			if text != src {
				o.count("documents changed", 1)
				o.nontrivial = true
			} else {
				o.count("documents kept", 1)
			}
		},
	})
}

func formatOnce(src string, o *Obs) (string, bool) {
	s := newSess(nil)
	s.tell("textDocument/didOpen", opened(docUri, src))
	id := s.ask("textDocument/formatting", J{"textDocument": J{"uri": docUri}, "options": J{"tabSize": 4, "insertSpaces": false}})
	ans := s.run(o)
	if ans == nil {
		return "", false
	}
	var es []jEdit
	if len(ans[id].Error) > 0 && len(ans[id].Edits) == 0 {
		for _, l := range strings.Split(src, "\n") {
			if len(l) >= 1<<16 {
				o.count("refused", 1)
				return "", false
			}
		}
	}
	if len(ans[id].Error) > 0 || json.Unmarshal(ans[id].Result, &es) != nil {
		o.bad("formatting failed: %.200s %.200s", ans[id].Error, ans[id].Result)
		return "", false
	}
	text, err := applyEdits(src, es)
	if err != nil {
		o.bad("%v", err)
		return "", false
	}
	return text, true
}
