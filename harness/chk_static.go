package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

type rng4 struct{ sl, sc, el, ec int }

func (r rng4) StartLine() int      { return r.sl }
func (r rng4) StartCharacter() int { return r.sc }
func (r rng4) EndLine() int        { return r.el }
func (r rng4) EndCharacter() int   { return r.ec }

// diffSets compares two multisets of strings.
func diffSets(got, want []string) (extra, missing []string) {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		if m[g] > 0 {
			m[g]--
		} else {
			extra = append(extra, g)
		}
	}
	for w, n := range m {
		for ; n > 0; n-- {
			missing = append(missing, w)
		}
	}
	sort.Strings(extra)
	sort.Strings(missing)
	return
}

func (o *Obs) sameSet(what string, got, want []string) bool {
	e, m := diffSets(got, want)
	if len(e)+len(m) > 0 {
		o.bad("%s: reported but not so: %q; so but not reported: %q", what, cut(e), cut(m))
		return false
	}
	return true
}

func cut(x []string) []string {
	if len(x) > 6 {
		return x[:6]
	}
	return x
}

// ---------------------------------------------------------------- T01

func queryAll(res *teal.ProcessResult, r *Rng, src string, o *Obs) {
	n := len(res.Lines)
	lines := []int{-1 << 40, -2, -1, n, n + 1, 1 << 40}
	for i := 0; i < n && i < 12; i++ {
		lines = append(lines, i)
	}
	for k := 0; k < 6 && n > 12; k++ {
		lines = append(lines, r.N(n))
	}
	q := 0
	for _, l := range lines {
		cols := []int{-1 << 40, -1, 0, 1, 1 << 40}
		if l >= 0 && l < n {
			for _, t := range res.Lines[l] {
				cols = append(cols, t.Begin()-1, t.Begin(), t.Begin()+1, t.End()-1, t.End(), t.End()+1)
				if len(cols) > 60 {
					break
				}
			}
		}
		for _, c := range cols {
			res.DocAt(l, c)
			res.ArgAt(l, c)
			res.ArgValsAt(l, c)
			rg := rng4{l, c, l, c}
			res.SymOrRefAt(rg)
			res.SymbolsWithin(rg)
			res.SymbolRefsWithin(rg)
			res.SymbolsForRefWithin(rg)
			q += 7
		}
		ranges := []rng4{{l, 0, l, 1 << 40}, {l, 5, l, 2}, {l, -1, l + 3, 4}, {0, 0, l, 0}, {l, 0, 0, 0}}
		for _, rg := range ranges {
			res.InlayHints(rg)
			res.SymOrRefAt(rg)
			res.SymbolsWithin(rg)
			res.SymbolRefsWithin(rg)
			q += 4
		}
	}
	_ = res.Listing.String()
	for _, s := range res.Symbols {
		res.SymByName(s.Name())
		res.SymRefByName(s.Name())
	}
	o.count("queries", q)
}

// lastToks end a text: the last line has no line end.
var lastToks = []string{"", `"`, `""`, `"\`, `"\"`, `"\x`, `"\x4`, `"\x4"`, `"a`, "0", "0x", "0x4", "0", "-", "(", "b64", "b64(", "b64()", "base32 ", "b32)", "base64 \"", ":", "//", "/", "\x00", "\xff", "\\", "18446744073709551616", "a:", "#"}

func genBig(r *Rng, i int) string {
	switch i % 8 {
	case 0:
		return strings.Repeat("int 1\n", 5000)
	case 1:
		return "byte \"" + strings.Repeat(`\"a`, 200000) + "\n"
	case 2:
		return "pushints " + strings.Repeat("1 ", 100000)
	case 3:
		return strings.Repeat("\r", 20000) + strings.Repeat("/", 20000)
	case 4:
		var sb strings.Builder
		for k := 0; k < 1500; k++ {
			fmt.Fprintf(&sb, "l%d:\nb l%d\n", k, k/2)
		}
		return sb.String()
	case 5:
		return strings.Repeat("a", 300000) + ":" + strings.Repeat("\"", 1000)
	case 6:
		return "switch " + strings.Repeat("x y ", 20000) + "\nx:\ny:\n"
	default:
		b := make([]byte, 60000)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	}
}

func init() {
	register(&Check{
		ID:   "T01",
		Rule: "a case is a source text; it is non-trivial when it has at least one token",
		Gens: []GenSpec{
			gsrc("bytes", 20000, 400000, genBytesSoup),
			gsrc("tokens", 20000, 400000, genTokenSoup),
			gsrc("mutated-examples", 5000, 60000, genMutated),
			gsrc("op-lines", 10000, 150000, func(r *Rng) string { return genOpLines(r, r.Rg(1, 12), 60) }),
			gsrc("valid", 4000, 50000, func(r *Rng) string {
				return genValid(r, validOpts{n: r.Rg(0, 20), version: uint64(r.Rg(1, 10)), sloppy: true, mixedEol: true})
			}),
			{Name: "big", Quick: 16, Thorough: 64, Make: func(r *Rng, i int) *Case { return srcCase(genBig(r, i)) }},
			{Name: "last-token", Quick: len(refOpNames) * len(lastToks), Thorough: len(refOpNames) * len(lastToks) * 2, Make: func(r *Rng, i int) *Case {
				s := refOpNames[i%len(refOpNames)] + " "
				i /= len(refOpNames)
				if i >= len(lastToks) {
					s += pick(r, []string{"0 ", "0x41 ", "a ", "Sender ", "1 2 ", "b64 "})
				}
				return srcCase(pick(r, []string{"", "#pragma version 8\n", "//#pragma mode logicsig\n#pragma version 9\n"}) + s + lastToks[i%len(lastToks)])
			}},
			{Name: "cut-short", Quick: 8000, Thorough: 200000, Make: func(r *Rng, i int) *Case {
				// an instruction cut off at any byte, at the end of the text
				op := refOps[refOpNames[i%len(refOpNames)]]
				s := opLine(r, op, opndOpts{version: 9, labels: labelPool, byNum: true}, r.P(1, 3))
				s = s[:r.N(len(s)+1)] + pick(r, []string{"", "", "\"", "\"\\", " \"", "(", " //", " base64(", " b32 ", "\\", ":", " :", " 0x", "\r"})
				return srcCase(pick(r, []string{"", "#pragma version 8\n", "int 1\r", "a:\n//"}) + s)
			}},
			{Name: "every-op-prefix", Quick: 1, Thorough: 1, Make: func(r *Rng, i int) *Case {
				var sb strings.Builder
				for _, n := range refOpNames {
					sb.WriteString(n + "\n" + n + " \n" + n + " 0\n" + n + " \"\n" + n + " 0x\n" + n + " a b c d e\n")
				}
				return srcCase(sb.String())
			}},
		},
		Require: []string{"queries"},
		Run: func(c *Case, o *Obs) {
			src := string(c.Src)
			res := teal.Process(src)
			if res == nil {
				o.bad("analysis returned nothing")
				return
			}
			queryAll(res, NewRng(h64(c.Src)), src, o)
			o.count("analyses", 1)
			o.count("lines", len(res.Lines))
			o.count("diagnostics", len(res.Diagnostics))
			o.nontrivial = len(res.Tokens) > 0
			o.seen(shapeOf(res))
		},
	})
}

func shapeOf(res *teal.ProcessResult) string {
	var sb strings.Builder
	for i, op := range res.Listing {
		if i == 12 {
			break
		}
		sb.WriteString(typeName(op) + ",")
	}
	rs := map[string]int{}
	for _, d := range res.Diagnostics {
		rs[d.Rule()]++
	}
	for _, k := range sortedKeys(rs) {
		sb.WriteString(k + ";")
	}
	return sb.String()
}

// ---------------------------------------------------------------- L01

func init() {
	register(&Check{
		ID:   "L01",
		Rule: "a case is a source text; it is non-trivial when it has at least two tokens",
		Gens: []GenSpec{
			gsrc("bytes", 25000, 600000, genBytesSoup),
			gsrc("tokens", 20000, 400000, genTokenSoup),
			gsrc("strings-and-comments", 20000, 300000, genLexical),
			gsrc("any", 10000, 200000, genAny),
			gsrc("layout", 3000, 60000, genLayout),
			large(48, 1200),
		},
		Require: []string{"tokens", "strings", "comments", "unclosed strings", "carriage returns", "steps back"},
		Run: func(c *Case, o *Obs) {
			src := string(c.Src)
			res := teal.Process(src)
			checkTokens(src, res, o)
			checkStepping(src, res, NewRng(h64(c.Src)), o)
			o.nontrivial = len(res.Tokens) > 1
		},
	})
}

func genLexical(r *Rng) string {
	var sb strings.Builder
	parts := []string{`"`, `"`, `\`, `\\`, `\"`, `//`, `/`, " ", "\t", "\n", "\r", "\r\n", "a", "bc:", "base64", "b64", "0x1", `"x"`, "é", "\xff", `"a b"`, "// c"}
	for k := r.Rg(1, 25); k > 0; k-- {
		sb.WriteString(pick(r, parts))
	}
	return sb.String()
}

// checkStepping moves a lexer forward and back and compares where it stands.
func checkStepping(src string, res *teal.ProcessResult, r *Rng, o *Obs) {
	z := &teal.Lexer{Source: []byte(src)}
	at, started := 0, false
	same := func(a, b teal.Token) bool {
		return a.Line() == b.Line() && a.Begin() == b.Begin() && a.End() == b.End() && a.Type() == b.Type() && a.String() == b.String()
	}
	for k := 0; k < 4*len(res.Tokens)+8 && at < len(res.Tokens); k++ {
		if started && r.P(1, 3) {
			if ok := z.Return(); ok != (at > 0) {
				o.bad("stepping back from token %d: %v", at, ok)
				return
			}
			if at > 0 {
				at--
			}
			o.count("steps back", 1)
		} else {
			ok := z.Scan()
			if started {
				at++
			}
			started = true
			if ok != (at < len(res.Tokens)) {
				o.bad("stepping to token %d of %d: %v", at, len(res.Tokens), ok)
				return
			}
		}
		if at < len(res.Tokens) && !same(z.Curr(), res.Tokens[at]) {
			o.bad("after stepping to token %d the lexer stands at %d:%d %q, not %q", at, z.Curr().Line(), z.Curr().Begin(), z.Curr().String(), res.Tokens[at].String())
			return
		}
	}
	for started && at < len(res.Tokens) {
		z.Scan()
		at++
	}
	if !started {
		z.Scan()
	}
	if at >= len(res.Tokens) {
		// all the way back and forth again
		if n := at; started && n > 0 && r.P(1, 3) {
			for ; at > 0; at-- {
				if !z.Return() {
					o.bad("stepping back from token %d fails", at)
					return
				}
			}
			for ; at < n; at++ {
				if !same(z.Curr(), res.Tokens[at]) {
					o.bad("after going back to the start and forth to token %d the lexer stands at %d:%d %q, not %q", at, z.Curr().Line(), z.Curr().Begin(), z.Curr().String(), res.Tokens[at].String())
					return
				}
				if ok := z.Scan(); ok != (at+1 < n) {
					o.bad("going forth from token %d of %d: %v", at, n, ok)
					return
				}
			}
			o.count("rewinds", 1)
		}
		// at the end: no token, and the same syntax errors
		if t := z.Curr(); t.Type() != "" || t.String() != "" {
			o.bad("past the end the lexer stands at %q", t.String())
		}
		var got, want []string
		for _, e := range z.Errors() {
			got = append(got, fmt.Sprintf("%d:%d..%d %s %s", e.Line(), e.Begin(), e.End(), e.Rule(), e))
		}
		for _, d := range res.Diagnostics {
			if d.Rule() == "SYNTAX" {
				want = append(want, fmt.Sprintf("%d:%d..%d %s %s", d.Line(), d.Begin(), d.End(), d.Rule(), d))
			}
		}
		o.sameSet("lexer errors", got, want)
	}
}

func checkTokens(src string, res *teal.ProcessResult, o *Obs) {
	want := refLex(src)
	if len(want) != len(res.Tokens) {
		o.bad("%d tokens reported, the text has %d", len(res.Tokens), len(want))
	}
	bad := map[int]bool{}
	// 1. reconstruct the text from the reported tokens alone
	lineStarts := []int{0}
	pos := 0
	line := 0
	for i, t := range res.Tokens {
		if t.Line() != line {
			o.bad("token %d %q is placed on line %d, it is on line %d", i, t.String(), t.Line(), line)
			return
		}
		b, e := lineStarts[line]+t.Begin(), lineStarts[line]+t.End()
		if b < pos || e <= b || e > len(src) {
			o.bad("token %d %q spans columns %d..%d of line %d, outside the text left over", i, t.String(), t.Begin(), t.End(), line)
			return
		}
		if gap := src[pos:b]; strings.Trim(gap, " \t") != "" {
			o.bad("text %q lies between tokens %d and %d", gap, i-1, i)
			return
		}
		raw := src[b:e]
		switch string(t.Type()) {
		case "EOL":
			if raw != "\n" && raw != "\r" && raw != "\r\n" {
				o.bad("line end token covers %q", raw)
			}
			if raw != "\n" {
				o.count("carriage returns", 1)
			}
			line++
			lineStarts = append(lineStarts, e)
		case "Comment":
			o.count("comments", 1)
			if "//"+t.String() != raw || strings.ContainsAny(raw, "\r\n") {
				o.bad("comment token %q covers %q", t.String(), raw)
			}
		case "Value":
			if strings.ContainsAny(raw, "\r\n") {
				o.bad("token covers a line break: %q", raw)
			}
			if raw[0] == '"' {
				o.count("strings", 1)
			} else if t.String() != raw {
				o.bad("value token %q covers %q", t.String(), raw)
			}
		default:
			o.bad("unknown token type %q", t.Type())
		}
		pos = e
	}
	if strings.Trim(src[pos:], " \t") != "" {
		o.bad("text %q after the last token", src[pos:])
	}
	o.count("tokens", len(res.Tokens))
	// 2. the same boundaries as the reference reading
	for i, t := range res.Tokens {
		if i >= len(want) {
			break
		}
		w := want[i]
		if string(t.Type()) != w.Kind || t.Line() != w.Line || t.Begin() != w.B || t.End() != w.E {
			o.bad("token %d is %s %q at %d:%d..%d, expected %s %q at %d:%d..%d", i, t.Type(), t.String(), t.Line(), t.Begin(), t.End(), w.Kind, w.Raw, w.Line, w.B, w.E)
			break
		}
		if t.String() != w.Val {
			o.bad("token %d at %d:%d has value %q, expected %q", i, w.Line, w.B, t.String(), w.Val)
			break
		}
	}
	for _, w := range want {
		if w.Bad {
			bad[w.Line] = true
			o.count("unclosed strings", 1)
		}
	}
	got := map[int]bool{}
	for _, d := range res.Diagnostics {
		if d.Rule() == "SYNTAX" {
			got[d.Line()] = true
			if !bad[d.Line()] {
				o.bad("syntax error on line %d, which has no unclosed string", d.Line())
			}
		}
	}
	for l := range bad {
		if !got[l] {
			o.bad("unclosed string on line %d is not reported as a syntax error", l)
		}
	}
}

// ---------------------------------------------------------------- L02

func init() {
	register(&Check{
		ID:   "L02",
		Rule: "a case is a source text; it is non-trivial when it has at least two lines",
		Gens: []GenSpec{
			gsrc("op-lines", 15000, 250000, func(r *Rng) string { return genOpLines(r, r.Rg(2, 25), 50) }),
			gsrc("tokens", 15000, 250000, genTokenSoup),
			gsrc("any", 10000, 200000, genAny),
			gsrc("valid", 3000, 50000, func(r *Rng) string {
				return genValid(r, validOpts{n: r.Rg(1, 30), version: uint64(r.Rg(1, 9)), sloppy: r.P(1, 2), mixedEol: r.P(1, 2)})
			}),
			large(48, 1200),
		},
		Require: []string{"accepted lines", "rejected lines", "surplus lines"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkListing(p, res, o)
			o.nontrivial = len(p.Lines) > 1
		},
	})
}

func checkListing(p *rProg, res *teal.ProcessResult, o *Obs) {
	if len(res.Listing) != len(p.Lines) || len(res.Lines) != len(p.Lines) {
		o.bad("the source has %d lines; the listing has %d entries and the result %d lines", len(p.Lines), len(res.Listing), len(res.Lines))
		return
	}
	for i := range p.Lines {
		l := &p.Lines[i]
		got := canonOp(res.Listing[i])
		if l.Syntax {
			continue
		}
		if got != l.Inst.Str {
			o.bad("line %d is listed as %q, expected %q", i, got, l.Inst.Str)
		}
		// the tokens kept for the line are the ones written there, comment aside
		if len(res.Lines[i]) != len(l.Toks) {
			o.bad("line %d keeps %d tokens, expected %d", i, len(res.Lines[i]), len(l.Toks))
		}
		switch {
		case l.Surplus:
			o.count("surplus lines", 1)
		case l.Err:
			o.count("rejected lines", 1)
		case l.Inst.Mnem != "":
			o.count("accepted lines", 1)
			o.seen(l.Inst.Mnem)
		}
	}
}

// ---------------------------------------------------------------- D01

var knownRules = map[string]bool{"SYNTAX": true, "PARSE": true, "LINT0001": true, "LINT0002": true, "LINT0003": true, "LINT0004": true, "LINT0005": true, "LINT0006": true, "LINT0007": true, "LINT0008": true}

func lineTexts(src string) []string {
	var out []string
	start := 0
	for i := 0; i < len(src); {
		if src[i] == '\n' || src[i] == '\r' {
			out = append(out, src[start:i])
			if src[i] == '\r' && i+1 < len(src) && src[i+1] == '\n' {
				i++
			}
			i++
			start = i
			continue
		}
		i++
	}
	return append(out, src[start:])
}

func init() {
	register(&Check{
		ID:   "D01",
		Rule: "a case is a source text; it is non-trivial when the analysis reports something",
		Gens: []GenSpec{
			gsrc("any", 25000, 500000, genAny),
			gsrc("layout", 3000, 60000, genLayout),
			gsrc("tokens", 15000, 300000, genTokenSoup),
			gsrc("control", 10000, 200000, func(r *Rng) string {
				return genControl(r, cfOpts{n: r.Rg(1, 20), labels: r.Rg(1, 4), plain: []string{"int 1", "pop"}, noise: true, dups: r.P(1, 2), missing: true, surplus: true, version: r.N(10), switches: true})
			}),
			gsrc("lexical", 8000, 100000, genLexical),
			large(48, 1200),
		},
		Require: []string{"SYNTAX", "PARSE", "LINT0001", "LINT0002", "LINT0003", "LINT0004", "LINT0005", "LINT0006", "LINT0007", "LINT0008"},
		Run: func(c *Case, o *Obs) {
			src := string(c.Src)
			res := teal.Process(src)
			texts := lineTexts(src)
			for _, d := range res.Diagnostics {
				o.count(d.Rule(), 1)
				if !knownRules[d.Rule()] {
					o.bad("diagnostic with unknown rule %q", d.Rule())
				}
				if s := int(d.Severity()); s < 1 || s > 3 {
					o.bad("diagnostic %s with severity %d", d.Rule(), s)
				}
				if d.String() == "" {
					o.bad("diagnostic %s without a message", d.Rule())
				}
				if d.Line() < 0 || d.Line() >= len(texts) {
					o.bad("diagnostic %s %q on line %d of a text with %d lines", d.Rule(), d.String(), d.Line(), len(texts))
					continue
				}
				n := len(texts[d.Line()])
				if d.Begin() < 0 || d.Begin() > d.End() || d.End() > n {
					o.bad("diagnostic %s %q spans %d..%d of line %d, which has %d bytes", d.Rule(), d.String(), d.Begin(), d.End(), d.Line(), n)
				}
				o.nontrivial = true
			}
		},
	})
}

// ---------------------------------------------------------------- P01

// checkParse compares acceptance and recorded values, line by line.
func checkParse(p *rProg, res *teal.ProcessResult, o *Obs, want func(l *rLine) bool) {
	errs := map[int][]string{}
	for _, d := range res.Diagnostics {
		if d.Rule() == "PARSE" {
			errs[d.Line()] = append(errs[d.Line()], d.String())
		}
	}
	for i := range p.Lines {
		l := &p.Lines[i]
		if l.Syntax || want != nil && !want(l) {
			continue
		}
		if l.Err && len(errs[i]) == 0 {
			o.bad("line %d %q: no parse error, but %s", i, lineText(l), l.ErrWhy)
			continue
		}
		if !l.Err && len(errs[i]) > 0 {
			o.bad("line %d %q is well-formed but rejected: %s", i, lineText(l), errs[i][0])
			continue
		}
		if l.Err {
			o.count("rejected", 1)
			if l.Known {
				o.seen("reject " + l.Op.Name + " " + l.ErrWhy)
			}
			continue
		}
		if i < len(res.Listing) {
			if got := canonOp(res.Listing[i]); got != l.Inst.Str {
				o.bad("line %d %q is recorded as %q, expected %q", i, lineText(l), got, l.Inst.Str)
			}
		}
		if l.Inst.Mnem != "" {
			o.count("accepted", 1)
			o.seen("accept " + l.Inst.Str)
		}
	}
}

func lineText(l *rLine) string {
	var xs []string
	for _, t := range l.All {
		xs = append(xs, t.Raw)
	}
	return strings.Join(xs, " ")
}

// operandGrid lists operand spellings that matter for one kind of operand.
func operandGrid(kind string) []string {
	switch kind {
	case "u8":
		return []string{"0", "1", "9", "10", "127", "128", "254", "255", "256", "257", "-1", "0x1", "1000", "x", "00", "007", "+1", "1.", "65535", "4294967296"}
	case "i8":
		return []string{"0", "-1", "1", "-127", "-128", "-129", "126", "127", "128", "255", "-256", "0x1", "x", "-0", "+5"}
	case "u64", "int":
		return append([]string{"0", "1", "0x0", "0xff", "0XFF", "0b1", "0o7", "017", "18446744073709551615", "0xffffffffffffffff", "1_000", "4294967296", "9223372036854775808"}, append([]string{"pay", "NoOp", "appl", "Payment", "DeleteApplication", "unknown", "UpdateApplication", "axfer", "keyreg", "acfg", "afrz", "OptIn", "CloseOut", "ClearState", "KeyRegistration", "AssetConfig", "AssetTransfer", "AssetFreeze", "ApplicationCall"}, badIntsNZ()...)...)
	case "label":
		return []string{"a", "nowhere", "9", "int", "a:b", `"q"`}
	case "bytes":
		return append([]string{"0x", "0x41", `""`, `"a b"`, "b64(AQID)", "base32(AEBAGBA)", "base32(AEBAGBA=)", "base64 AQID", "b32 AEBAGBA", "b64 //8=", `"\x41\n\"\\"`}, badBytes...)
	case "addr":
		return []string{"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKA", "AAAA", `"x"`, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaay5hfkq", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQA", "0"}
	case "sig":
		return []string{`"a()void"`, `""`, "a()void", `"a b"`, `"x//y"`, "'a'"}
	}
	out := []string{"0", "1", "3", "7", "63", "255", "256", "-1", "0x0", "nosuch", "sender"}
	for _, f := range refFields[kind] {
		out = append(out, f.Name)
	}
	return out
}

func badIntsNZ() []string {
	var out []string
	for _, s := range badInts {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

// gridLines: for one opcode, one operand at a time takes every spelling of its
// grid (the others are good), plus every wrong count of operands.
func gridLines(r *Rng, op *refOp, v uint64) []string {
	o := opndOpts{version: v, labels: []string{"a", "bb"}}
	var out []string
	good := func(a refArg) string {
		g := goodOperand(r, a, o)
		if g == nil {
			g = []string{"0"}
		}
		return strings.Join(g, " ")
	}
	full := func() []string {
		t := []string{op.Name}
		for _, a := range op.Args {
			t = append(t, good(a))
		}
		return t
	}
	for n := 0; n <= len(op.Args); n++ {
		out = append(out, strings.Join(full()[:n+1], " "))
	}
	out = append(out, strings.Join(append(full(), "1"), " "), strings.Join(append(full(), "1", "2"), " "), strings.Join(append(full(), "x"), " "), strings.Join(append(full(), "//"), " "))
	for i, a := range op.Args {
		for _, s := range operandGrid(a.Kind) {
			t := full()
			t[i+1] = s
			out = append(out, strings.Join(t, " "))
			if a.Array {
				out = append(out, strings.Join(append(t, good(a), s), " "))
			}
			if a.Optional { // and cut after it
				out = append(out, strings.Join(t[:i+2], " "))
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:   "P01",
		Rule: "a case is a source text of instruction lines; it is non-trivial when it has an accepted and a rejected line",
		Gens: []GenSpec{
			{Name: "operand-grid", Quick: len(refOpNames), Thorough: len(refOpNames) * 6, Make: func(r *Rng, i int) *Case {
				op := refOps[refOpNames[i%len(refOpNames)]]
				v := uint64(9)
				if i >= len(refOpNames) {
					v = uint64(r.Rg(1, 10))
				}
				return srcCase(fmt.Sprintf("#pragma version %d\n", v) + strings.Join(gridLines(r, op, v), "\n") + "\n")
			}},
			gsrc("op-lines", 20000, 400000, func(r *Rng) string { return genOpLines(r, r.Rg(1, 15), 40) }),
			gsrc("tokens", 8000, 150000, genTokenSoup),
			large(36, 800),
			{Name: "every-byte-operand", Quick: 300, Thorough: 300, Make: func(r *Rng, i int) *Case {
				// every 8-bit operand of every opcode takes the value i-20
				var sb strings.Builder
				sb.WriteString("#pragma version 9\n")
				for _, n := range refOpNames {
					op := refOps[n]
					for k, a := range op.Args {
						if a.Kind == "u8" || a.Kind == "i8" {
							t := []string{n}
							for k2, b := range op.Args {
								if k2 == k {
									t = append(t, strconv.Itoa(i-20))
								} else {
									t = append(t, goodOperand(r, b, opndOpts{version: 9, labels: []string{"a"}})...)
								}
							}
							sb.WriteString(strings.Join(t, " ") + "\n")
						}
					}
				}
				return srcCase(sb.String())
			}},
		},
		Require: []string{"accepted", "rejected"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkParse(p, res, o, nil)
			o.nontrivial = o.counts["accepted"] > 0 && o.counts["rejected"] > 0
		},
	})
}

// ---------------------------------------------------------------- P02

type bytesArgs struct {
	Op   string
	Vals [][]byte
	Bad  bool
	Ref  bool // the reference reading decides
}

// perturb makes a few small edits to a literal.
func perturb(r *Rng, s string) string {
	b := []byte(s)
	alpha := "==__--++//\\\"()0017aAfFgGxXzZnrt  \t28:,é"
	for k := pick(r, []int{1, 1, 1, 2, 3}); k > 0; k-- {
		i := r.N(len(b) + 1)
		if r.P(1, 3) && len(b) > 3 {
			i = len(b) - r.N(4)
		}
		switch r.N(5) {
		case 0:
			if i < len(b) {
				b = append(b[:i], b[i+1:]...)
			}
		case 1, 2:
			b = append(b[:i], append([]byte{alpha[r.N(len(alpha))]}, b[i:]...)...)
		case 3:
			if i < len(b) {
				b[i] = alpha[r.N(len(alpha))]
			}
		default:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		}
	}
	return string(b)
}

var bytesOps = []string{"byte", "pushbytes", "bytecblock", "pushbytess"}

func init() {
	register(&Check{
		ID:   "P02",
		Rule: "a case is one instruction with byte constants written from known bytes (or malformed); it is non-trivial when at least one constant is not empty",
		Gens: []GenSpec{
			{Name: "known-bytes", Quick: 40000, Thorough: 800000, Make: func(r *Rng, i int) *Case {
				a := bytesArgs{Op: pick(r, bytesOps)}
				n := 1
				sizes := []int{0, 1, 2, 3, 5, 8, 16, 40}
				if a.Op == "bytecblock" || a.Op == "pushbytess" {
					n = r.Rg(0, 4)
					if i%200 == 7 {
						n = pick(r, []int{15, 16, 17, 64, 127, 128, 255, 256, 257, 300})
					}
				}
				if i%100 == 3 {
					sizes = []int{64, 127, 128, 129, 255, 256, 257, 512, 1024, 4096, 5000}
				}
				line := a.Op
				for k := 0; k < n; k++ {
					b := randBytes(r, pick(r, sizes))
					a.Vals = append(a.Vals, b)
					line += pick(r, []string{" ", " ", "  ", "\t"}) + strings.Join(litBytes(r, b), pick(r, []string{" ", " ", "\t"}))
				}
				line += pick(r, []string{"", "", " // c", "\t//\"", " "})
				return &Case{Src: []byte("#pragma version 9\n" + line + pick(r, []string{"", "\n", "\r\n", "\r"})), Args: mkArgs(a)}
			}},
			{Name: "every-byte", Quick: 256 * 6, Thorough: 256 * 6, Make: func(r *Rng, i int) *Case {
				b := []byte{byte(i)}
				var lit string
				switch i / 256 {
				case 0:
					lit = fmt.Sprintf(`"\x%02x"`, i%256)
				case 1:
					lit = fmt.Sprintf(`"\x%02X"`, i%256)
				case 2:
					lit = fmt.Sprintf(`0x%02x`, i%256)
				case 3:
					lit = fmt.Sprintf(`0x%02X`, i%256)
				case 4:
					b = []byte{'a', byte(i), 'b'}
					lit = litQuoted(r, b)
				default:
					b = []byte{byte(i), '"', '\\', byte(i)}
					lit = litQuoted(r, b)
				}
				return &Case{Src: []byte("byte " + lit + "\n"), Args: mkArgs(bytesArgs{Op: "byte", Vals: [][]byte{b}})}
			}},
			{Name: "perturbed", Quick: 40000, Thorough: 800000, Make: func(r *Rng, i int) *Case {
				a := bytesArgs{Op: pick(r, bytesOps), Ref: true}
				var ls []string
				for k := 0; k < 6; k++ {
					ls = append(ls, a.Op+" "+perturb(r, strings.Join(litBytes(r, randBytes(r, pick(r, []int{1, 2, 3, 5, 9, 10, 12}))), " ")))
				}
				return &Case{Src: []byte("#pragma version 9\n" + strings.Join(ls, "\n")), Args: mkArgs(a)}
			}},
			{Name: "escapes", Quick: 600, Thorough: 600, Make: func(r *Rng, i int) *Case {
				// every byte after a backslash, and every pair of characters of a set after \x
				const set = "0123456789abcdefABCDEFgGxX_-+ \\\"n."
				var ls []string
				if i < 256 {
					c := string([]byte{byte(i)})
					ls = []string{`byte "\` + c + `"`, `byte "a\` + c + `41"`, `byte "\x` + c + `1"`, `byte "\x1` + c + `"`, `byte "\x` + c, `byte "\` + c}
				} else {
					for k := 0; k < 6; k++ {
						ls = append(ls, `byte "`+strings.Repeat("z", r.N(3))+`\x`+string(set[(i*6+k)%len(set)])+string(set[(i*6+k)/len(set)%len(set)])+`"`)
					}
				}
				return &Case{Src: []byte("#pragma version 9\n" + strings.Join(ls, "\n")), Args: mkArgs(bytesArgs{Op: "byte", Ref: true})}
			}},
			{Name: "malformed", Quick: 20000, Thorough: 300000, Make: func(r *Rng, i int) *Case {
				a := bytesArgs{Op: pick(r, bytesOps), Bad: true}
				lit := ""
				b := append(randBytes(r, 8), 'q')
				switch r.N(9) {
				case 0: // odd number of digits
					s := litHex(b)
					lit = s[:len(s)-1]
				case 1: // a digit that is none
					s := []byte(litHex(b))
					s[2+r.N(len(s)-2)] = pick(r, []byte("gGzZ-_+.:"))
					lit = string(s)
				case 2:
					lit = `"` + pick(r, []string{"", "ab", `\\`}) + `\` + pick(r, []string{"q", "0", "X41", "u0041", "'", "a", "x", "x4", "xg0", "x0g", "x 1", "x-1"}) + `"`
				case 3: // no closing parenthesis
					lit = pick(r, []string{"base64(AQID", "b64(", "base32(AEBAGBA", "b32("})
				case 4:
					lit = pick(r, []string{"base64", "b64"}) + "(" + pick(r, []string{"A", "AQI", "AQ=", "A===", "AQID=", "AQ!D", "_-_-", "AQIDB"}) + ")"
				case 5:
					lit = pick(r, []string{"base32", "b32"}) + "(" + pick(r, []string{"A1", "AE1", "ae", "AEBAGBA8", "AE9", "AE0A", "AEB-"}) + ")"
				case 6:
					lit = pick(r, []string{"base64 A", "b64 AQI", "base32 1", "b32 ae", "base64 AQ!D"})
				case 7:
					lit = pick(r, []string{"abc", "0X41", "'a'", "65", "base16(41)", "Base64(AQID)", "b16 41", "utf8(a)", "0"})
				default:
					lit = pick(r, []string{"base64", "b64", "base32", "b32"})
				}
				line := a.Op
				if (a.Op == "bytecblock" || a.Op == "pushbytess") && r.P(1, 2) {
					line += " 0x41"
				}
				return &Case{Src: []byte("#pragma version 9\n" + line + " " + lit + "\n"), Args: mkArgs(a)}
			}},
		},
		Require:  []string{"constants", "malformed"},
		NoShrink: true,
		Run: func(c *Case, o *Obs) {
			var a bytesArgs
			c.args(&a)
			res := teal.Process(string(c.Src))
			if a.Ref {
				p := refAnalyse(string(c.Src))
				checkParse(p, res, o, nil)
				for i := range p.Lines {
					if l := &p.Lines[i]; l.Syntax {
						continue
					} else if l.Err {
						o.count("malformed", 1)
					} else if i > 0 {
						o.count("constants", 1)
					}
				}
				o.nontrivial = true
				return
			}
			li := 0
			if strings.HasPrefix(string(c.Src), "#") {
				li = 1
			}
			perr := 0
			for _, d := range res.Diagnostics {
				if d.Line() == li && (d.Rule() == "PARSE" || d.Rule() == "SYNTAX") {
					perr++
				}
			}
			if a.Bad {
				if perr == 0 {
					o.bad("malformed byte constant accepted: %q", string(c.Src))
				}
				o.count("malformed", 1)
				o.nontrivial = true
				o.seen(string(c.Src))
				return
			}
			if perr > 0 {
				o.bad("well-formed byte constant rejected: %q", string(c.Src))
				return
			}
			if li >= len(res.Listing) {
				o.bad("no entry for the instruction")
				return
			}
			want := ""
			switch a.Op {
			case "byte", "pushbytes":
				want = a.Op + " Value=" + canonBytes(a.Vals[0])
			default:
				var xs []string
				for _, v := range a.Vals {
					xs = append(xs, canonBytes(v))
				}
				f := "Values"
				if a.Op == "pushbytess" {
					f = "Bytess"
				}
				want = a.Op + " " + f + "=[" + strings.Join(xs, ",") + "]"
			}
			if got := canonOp(res.Listing[li]); got != want {
				o.bad("%q is recorded as %s, it denotes %s", string(c.Src), got, want)
			}
			o.count("constants", len(a.Vals))
			for _, v := range a.Vals {
				if len(v) > 0 {
					o.nontrivial = true
				}
			}
		},
	})
}

func litHex(b []byte) string { return canonBytes(b) }

// ---------------------------------------------------------------- P03

func lintLines(res *teal.ProcessResult, rule string) []string {
	var out []string
	for _, d := range res.Diagnostics {
		if d.Rule() == rule {
			out = append(out, strconv.Itoa(d.Line()))
		}
	}
	return out
}

func checkGating(p *rProg, res *teal.ProcessResult, o *Obs) {
	var mode, ver, req []string
	skip := map[int]bool{}
	for i := range p.Lines {
		l := &p.Lines[i]
		if l.Syntax {
			skip[i] = true
			continue
		}
		if l.Known {
			o.count("gated lines", 1)
			o.seen(fmt.Sprint(l.Op.Name, l.Version, l.Mode))
		}
		if l.NoMode {
			mode = append(mode, strconv.Itoa(i))
			o.count("mode findings", 1)
		}
		if l.Need > 0 {
			ver = append(ver, strconv.Itoa(i))
			req = append(req, fmt.Sprintf("line %d needs %d", i, l.Need))
			o.count("version findings", 1)
		}
	}
	drop := func(xs []string) []string {
		var out []string
		for _, x := range xs {
			n, _ := strconv.Atoi(x)
			if !skip[n] {
				out = append(out, x)
			}
		}
		return out
	}
	o.sameSet("lines with an opcode unavailable in the mode (LINT0007)", drop(lintLines(res, "LINT0007")), mode)
	o.sameSet("lines with an opcode unavailable in the version (LINT0008)", drop(lintLines(res, "LINT0008")), ver)
	var got []string
	for _, v := range res.Versions {
		if !skip[v.Line] {
			got = append(got, fmt.Sprintf("line %d needs %d", v.Line, v.Version))
		}
	}
	o.sameSet("required versions", got, req)
}

func init() {
	nOps := len(refOpNames)
	register(&Check{
		ID:   "P03",
		Rule: "a case is a source with opcodes under a version and mode; it is non-trivial when it has at least one gated finding",
		Gens: []GenSpec{
			{Name: "every-op-version-mode", Quick: 26, Thorough: 26, Make: func(r *Rng, i int) *Case {
				var sb strings.Builder
				v := i / 2 // 0: no directive
				if v == 12 {
					v = 255
				}
				if i%2 == 1 {
					sb.WriteString("//#pragma mode logicsig\n")
				}
				if v > 0 {
					fmt.Fprintf(&sb, "#pragma version %d\n", v)
				}
				for k := 0; k < nOps; k++ {
					op := refOps[refOpNames[k]]
					sb.WriteString(opLine(r, op, opndOpts{version: 255, labels: []string{"a"}}, false) + "\n")
					sb.WriteString(op.Name + "\n") // rejected operands do not hide the opcode
				}
				return srcCase(sb.String())
			}},
			gsrc("changing-version-and-mode", 8000, 150000, func(r *Rng) string {
				var sb strings.Builder
				for k := r.Rg(1, 25); k > 0; k-- {
					switch r.N(8) {
					case 0:
						fmt.Fprintf(&sb, "#pragma version %d\n", r.Rg(0, 11))
					case 1:
						if r.P(1, 3) {
							sb.WriteString(pick(r, []string{"//#pragma mode logicsig\n", "//  #pragma mode logicsig \n", "//#pragma mode app\n", "//#pragma  mode logicsig\n", "// x #pragma mode logicsig\n"}))
						}
					default:
						sb.WriteString(opLine(r, refOps[pick(r, refOpNames)], opndOpts{version: uint64(r.Rg(1, 9)), labels: []string{"a"}, byNum: true}, r.P(1, 4)) + "\n")
					}
				}
				return sb.String()
			}),
			gsrc("any", 5000, 100000, genAny),
		},
		Require: []string{"mode findings", "version findings"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkGating(p, res, o)
			o.nontrivial = o.counts["mode findings"]+o.counts["version findings"] > 0
		},
	})
}

// ---------------------------------------------------------------- P04

var fieldOps = func() [][2]string { // opcode, kind
	var out [][2]string
	for _, l := range strings.Split(strings.TrimSpace(opsText), "\n") {
		p := strings.Fields(l)
		for _, a := range p[6:] {
			k := strings.TrimRight(strings.Split(a, ":")[0], "*?")
			switch k {
			case "txn", "itxn", "txna", "json", "ecdsa", "global", "holding", "asset", "app", "acct", "vrf", "b64", "block", "ec":
				out = append(out, [2]string{p[0], k})
			}
		}
	}
	return out
}()

func fieldLine(op *refOp, field string) string {
	t := []string{op.Name}
	for _, a := range op.Args {
		if a.Optional {
			break
		}
		if a.Kind == "u8" {
			t = append(t, "1")
		} else {
			t = append(t, field)
		}
	}
	return strings.Join(t, " ")
}

func init() {
	register(&Check{
		ID:   "P04",
		Rule: "a case is one field-taking opcode under one version with every field name of every group and every number; non-trivial when some names are accepted and some are not",
		Gens: []GenSpec{
			{Name: "every-op-field-version", Quick: len(fieldOps) * 11, Thorough: len(fieldOps) * 13, Make: func(r *Rng, i int) *Case {
				op := refOps[fieldOps[i%len(fieldOps)][0]]
				v := i / len(fieldOps)
				if v == 12 {
					v = 250
				}
				var sb strings.Builder
				if v > 0 {
					fmt.Fprintf(&sb, "#pragma version %d\n", v)
				} else {
					sb.WriteString("\n")
				}
				seen := map[string]bool{}
				for _, k := range []string{"txn", "itxn", "txna", "json", "ecdsa", "global", "holding", "asset", "app", "acct", "vrf", "b64", "block", "ec"} {
					for _, f := range refFields[k] {
						if !seen[f.Name] {
							seen[f.Name] = true
							sb.WriteString(fieldLine(op, f.Name) + "\n")
						}
					}
				}
				for n := 0; n < 80; n++ {
					sb.WriteString(fieldLine(op, strconv.Itoa(n)) + "\n")
				}
				for _, s := range []string{"", "sender", "SENDER", "Sender ", "NoSuchField", "255", "256", "-1", "0x0", "first", "TypeEnum1"} {
					sb.WriteString(fieldLine(op, s) + "\n")
				}
				return srcCase(sb.String())
			}},
			gsrc("mixed", 4000, 80000, func(r *Rng) string {
				var sb strings.Builder
				fmt.Fprintf(&sb, "#pragma version %d\n", r.Rg(1, 10))
				for k := r.Rg(1, 12); k > 0; k-- {
					op := refOps[pick(r, fieldOps)[0]]
					sb.WriteString(opLine(r, op, opndOpts{version: uint64(r.Rg(1, 10)), byNum: true, anyNum: true, labels: []string{"a"}}, r.P(1, 4)) + "\n")
				}
				return sb.String()
			}),
		},
		Require: []string{"accepted", "rejected", "name-number pairs"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkParse(p, res, o, nil)
			// the same field by name and by number is the same instruction
			byStr := map[string][]int{}
			for i := range p.Lines {
				if !p.Lines[i].Err && p.Lines[i].Inst.Mnem != "" {
					byStr[p.Lines[i].Inst.Str] = append(byStr[p.Lines[i].Inst.Str], i)
				}
			}
			for _, ls := range byStr {
				for _, l := range ls[1:] {
					if l < len(res.Listing) && res.Listing[l].String() != res.Listing[ls[0]].String() {
						o.bad("lines %q and %q denote the same instruction but are printed %q and %q", lineText(&p.Lines[ls[0]]), lineText(&p.Lines[l]), res.Listing[ls[0]], res.Listing[l])
					}
					o.count("name-number pairs", 1)
				}
			}
			o.nontrivial = o.counts["accepted"] > 0 && o.counts["rejected"] > 0
		},
	})
}

// ---------------------------------------------------------------- P05

func diagKeys(res *teal.ProcessResult) []string {
	var out []string
	for _, d := range res.Diagnostics {
		out = append(out, fmt.Sprintf("%d %s sev%d %s", d.Line(), d.Rule(), d.Severity(), d.String()))
	}
	sort.Strings(out)
	return out
}

func init() {
	register(&Check{
		ID:   "P05",
		Rule: "a case is a source without syntax or parse errors; non-trivial when its listing has at least one instruction with operands",
		Gens: []GenSpec{
			gsrc("valid", 15000, 300000, func(r *Rng) string {
				return genValid(r, validOpts{n: r.Rg(1, 20), version: uint64(r.Rg(1, 9)), sloppy: r.P(1, 3), mixedEol: r.P(1, 4)})
			}),
			{Name: "one-instruction", Quick: len(refOpNames) * 30, Thorough: len(refOpNames) * 400, Make: func(r *Rng, i int) *Case {
				op := refOps[refOpNames[i%len(refOpNames)]]
				v := uint64(pick(r, []int{9, 9, 8, 10}))
				line := opLine(r, op, opndOpts{version: v, labels: labelPool, byNum: true}, false)
				if indexNonArray(line) {
					return nil
				}
				return srcCase(fmt.Sprintf("#pragma version %d\n%s\n", v, line))
			}},
			gsrc("control", 4000, 50000, func(r *Rng) string {
				return genControl(r, cfOpts{n: r.Rg(1, 20), labels: r.Rg(1, 5), plain: []string{"int 1", "pop", "byte \"x\"", "proto 1 2"}, dups: r.P(1, 2), missing: true, version: 8, switches: true})
			}),
			largeValid(48, 1200),
			gsrc("versions", 1000, 10000, func(r *Rng) string {
				return fmt.Sprintf("#pragma version %s%d\nint 1\n%s\n", pick(r, []string{"", "0", "0x"}), pick(r, []uint64{1, 7, 10, 99, 100, 127, 128, 255, 256, 257, 300, 512, 65535, 65537, 1 << 32, 1<<63 + 9, uint64(r.N(300))}), pick(r, []string{"", "pop", "txn Sender", "int 2\nbyte 0x41\nlog"}))
			}),
		},
		Require: []string{"printed instructions"},
		Run: func(c *Case, o *Obs) {
			src := string(c.Src)
			p := refAnalyse(src)
			if p.hasErr() || p.Mode == "sig" {
				o.count("not applicable", 1)
				return
			}
			res := teal.Process(src)
			text := res.Listing.String()
			res2 := teal.Process(text)
			a, b := canonListing(res.Listing), canonListing(res2.Listing)
			if len(a) != len(b) {
				o.bad("the printed listing has %d lines, the original %d:\n%s", len(b), len(a), text)
				return
			}
			for i := range a {
				if a[i] != b[i] {
					o.bad("line %d: %q printed as %q reads back as %q", i, a[i], res.Listing[i].String(), b[i])
				}
				if a[i] != p.Lines[i].Inst.Str {
					o.bad("line %d: recorded as %q, written as %q", i, a[i], p.Lines[i].Inst.Str)
				}
				if a[i] != "" {
					o.count("printed instructions", 1)
					o.seen(a[i])
					if strings.Contains(a[i], " ") {
						o.nontrivial = true
					}
				}
			}
			o.sameSet("diagnostics after printing", diagKeys(res2), diagKeys(res))
			if t2 := res2.Listing.String(); t2 != text {
				o.bad("printing again gives a different text:\n%s\n---\n%s", text, t2)
			}
		},
	})
}

// ---------------------------------------------------------------- S01

func symKey(name string, l, b, e int, docs, sig string) string {
	return fmt.Sprintf("%q at %d:%d..%d docs %q sig %q", name, l, b, e, docs, sig)
}

func init() {
	register(&Check{
		ID:   "S01",
		Rule: "a case is a source with labels and branches; non-trivial when it defines and references labels",
		Gens: []GenSpec{
			gsrc("control", 15000, 300000, func(r *Rng) string {
				return genControl(r, cfOpts{n: r.Rg(1, 25), labels: r.Rg(1, 5), plain: []string{"int 1", "proto 1 2", "proto 0 0", "// doc", "// doc2", "proto 1", "//", "pop", "proto 255 254"}, noise: true, dups: r.P(1, 2), missing: true, surplus: true, version: r.N(9), switches: true})
			}),
			gsrc("valid", 5000, 80000, func(r *Rng) string {
				return genValid(r, validOpts{n: r.Rg(1, 20), version: uint64(r.Rg(4, 9)), sloppy: r.P(1, 2), mixedEol: r.P(1, 2)})
			}),
			gsrc("any", 10000, 200000, genAny),
			gsrc("layout", 3000, 60000, genLayout),
			large(60, 1500),
		},
		Require: []string{"definitions", "references", "missing references", "signatures", "signatures of duplicates", "documented"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkSymbols(p, res, o)
			o.nontrivial = len(p.Syms) > 0 && len(p.Refs) > 0
		},
	})
}

func checkSymbols(p *rProg, res *teal.ProcessResult, o *Obs) {
	if p.Syntax {
		o.count("skipped: unclosed string", 1)
		return
	}
	defs := p.defs()
	if len(res.Symbols) != len(p.Syms) {
		o.bad("%d label definitions reported, the source has %d", len(res.Symbols), len(p.Syms))
	}
	for i, s := range p.Syms {
		o.count("definitions", 1)
		if i >= len(res.Symbols) {
			break
		}
		g := res.Symbols[i]
		sig := ""
		gsig := g.Signature()
		if s.HasSig {
			sig = fmt.Sprintf("in: %d, out: %d", s.In, s.Out)
			o.count("signatures", 1)
		}
		if s.Docs != "" {
			o.count("documented", 1)
		}
		if len(defs[s.Name]) > 1 && s.HasSig {
			o.count("signatures of duplicates", 1)
		}
		if sigNumbers(gsig) != sigNumbers(sig) {
			o.bad("label %q: signature %q, declared %q", s.Name, gsig, sig)
		}
		a := symKey(g.Name(), g.Line(), g.Begin(), g.End(), g.Docs(), "")
		b := symKey(s.Name, s.Tok.Line, s.Tok.B, s.Tok.E, s.Docs, "")
		if a != b {
			o.bad("definition %d is reported as %s, expected %s", i, a, b)
		}
	}
	tk := func(l, b, e int, v string) string { return fmt.Sprintf("%q at %d:%d..%d", v, l, b, e) }
	var want, miss, got, gmiss []string
	counts := map[string]int{}
	for _, t := range p.Refs {
		k := tk(t.Line, t.B, t.E, t.Val)
		want = append(want, k)
		counts[t.Val]++
		if len(defs[t.Val]) == 0 {
			miss = append(miss, k)
		}
	}
	for _, t := range res.SymbolRefs {
		got = append(got, tk(t.Line(), t.Begin(), t.End(), t.String()))
	}
	for _, t := range res.MissRefs {
		gmiss = append(gmiss, tk(t.Line(), t.Begin(), t.End(), t.String()))
	}
	o.count("references", len(want))
	o.count("missing references", len(miss))
	o.sameSet("label references", got, want)
	o.sameSet("missing label references", gmiss, miss)
	for n, k := range counts {
		if res.RefCounts[n] != k {
			o.bad("label %q is named %d times, counted %d", n, k, res.RefCounts[n])
		}
	}
	for n, k := range res.RefCounts {
		if counts[n] != k {
			o.bad("label %q is named %d times, counted %d", n, counts[n], k)
		}
	}
}

// sigNumbers keeps only the numbers of a signature, not its wording.
func sigNumbers(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }), ",")
}

// ---------------------------------------------------------------- N01 N02 N03

func checkLint(p *rProg, res *teal.ProcessResult, o *Obs, keep func(rule, kind string) bool) {
	if p.Syntax {
		o.count("skipped: unclosed string", 1)
		return
	}
	var got, want []string
	for _, d := range res.Diagnostics {
		if strings.HasPrefix(d.Rule(), "LINT") && keep(d.Rule(), lintKind(d)) {
			got = append(got, fmt.Sprintf("%d %s %s", d.Line(), d.Rule(), lintKind(d)))
		}
	}
	for _, l := range refLint(p.insts()) {
		if keep(l.Rule, l.Msg) {
			want = append(want, fmt.Sprintf("%d %s %s", l.Line, l.Rule, l.Msg))
			k := l.Msg
			if i := strings.IndexByte(k, ' '); i > 0 && (strings.HasPrefix(k, "dup") || strings.HasPrefix(k, "unus") || strings.HasPrefix(k, "miss")) {
				k = k[:i]
			}
			o.count(k, 1)
		}
	}
	o.sameSet("findings", got, want)
	// linting the listing by itself finds the same
	var own, all []string
	for _, e := range res.Listing.Lint() {
		if keep(e.Rule(), lintKind2(e.Rule(), e.Error())) {
			own = append(own, fmt.Sprintf("%d %s %d %s", e.Line(), e.Rule(), e.Severity(), e.Error()))
		}
	}
	for _, d := range res.Diagnostics {
		if k := lintKind(d); strings.HasPrefix(d.Rule(), "LINT") && keep(d.Rule(), k) {
			all = append(all, fmt.Sprintf("%d %s %d %s", d.Line(), d.Rule(), d.Severity(), d.String()))
		}
	}
	o.sameSet("findings in the listing", own, all)
}

func isDefKind(k string) bool {
	return strings.HasPrefix(k, "duplicate ") || strings.HasPrefix(k, "unused ") || strings.HasPrefix(k, "missing ")
}

func controlGen(r *Rng) string {
	return genControl(r, cfOpts{n: r.Rg(1, pick(r, []int{5, 10, 20})), labels: r.Rg(1, 4), plain: []string{"int 1", "pop", "assert", "proto 0 0", "log", "dup"}, noise: r.P(1, 2), dups: r.P(1, 2), missing: r.P(1, 2), surplus: r.P(1, 4), version: pick(r, []int{0, 8}), switches: true})
}

// enumControl enumerates short programs over a small alphabet of lines.
var enumLines = []string{"a:", "b a", "b c", "c:", "int 1", "return", "bnz a", "", "retsub", "callsub c", "switch a c", "err"}

func enumControl(r *Rng, i int) *Case {
	n := len(enumLines)
	var ls []string
	k := i
	for len(ls) < 5 {
		ls = append(ls, enumLines[k%n])
		k /= n
		if k == 0 {
			break
		}
	}
	return srcCase(strings.Join(ls, "\n"))
}

func init() {
	gens := []GenSpec{
		gsrc("control", 20000, 500000, controlGen),
		gsrc("any", 5000, 100000, genAny),
		{Name: "short-programs", Quick: 20736, Thorough: 248832, Make: enumControl},
		gsrc("valid", 2000, 50000, func(r *Rng) string {
			return genValid(r, validOpts{n: r.Rg(1, 25), version: uint64(r.Rg(1, 9)), sloppy: r.P(1, 2), mixedEol: r.P(1, 3)})
		}),
		large(60, 1500),
	}
	register(&Check{
		ID: "N01", Rule: "a case is a source; non-trivial when at least one label finding is due", Gens: gens,
		Require: []string{"duplicate", "unused", "missing"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkLint(p, res, o, func(rule, k string) bool { return isDefKind(k) || rule == "LINT0001" || rule == "LINT0002" })
			if !p.Syntax {
				checkRedundant(p, res, o, "label", "unused ")
			}
			o.nontrivial = o.counts["duplicate"]+o.counts["unused"]+o.counts["missing"] > 0
		},
	})
	register(&Check{
		ID: "N02", Rule: "a case is a source; non-trivial when at least one control-flow finding is due", Gens: gens,
		Require: []string{"unreachable", "redundant jump", "infinite loop"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkLint(p, res, o, func(rule, k string) bool {
				return rule == "LINT0003" || rule == "LINT0004" || rule == "LINT0005" && !isDefKind(k)
			})
			if !p.Syntax {
				checkRedundant(p, res, o, "b", "redundant jump")
			}
			o.nontrivial = o.counts["unreachable"]+o.counts["redundant jump"]+o.counts["infinite loop"] > 0
		},
	})
	register(&Check{
		ID: "N03", Rule: "a case is a source with directives; non-trivial when it has at least two of them or a malformed one",
		Gens: []GenSpec{
			gsrc("directives", 25000, 500000, genDirectives),
			gsrc("any", 5000, 100000, genAny),
			large(36, 600),
		},
		Require: []string{"misplaced directive", "malformed directives", "valid directives", "version findings"},
		Run: func(c *Case, o *Obs) {
			p := refAnalyse(string(c.Src))
			res := teal.Process(string(c.Src))
			checkLint(p, res, o, func(rule, k string) bool { return rule == "LINT0006" })
			checkParse(p, res, o, func(l *rLine) bool { return len(l.Toks) > 0 && l.Toks[0].Val == "#pragma" })
			checkGating(p, res, o)
			if res.Version != p.Version {
				o.bad("the program's version is %d, reported %d", p.Version, res.Version)
			}
			n := 0
			for i := range p.Lines {
				l := &p.Lines[i]
				if len(l.Toks) > 0 && l.Toks[0].Val == "#pragma" {
					n++
					if l.Err {
						o.count("malformed directives", 1)
						n++
					} else {
						o.count("valid directives", 1)
					}
				}
			}
			o.nontrivial = n > 1
		},
	})
}

func checkRedundant(p *rProg, res *teal.ProcessResult, o *Obs, mnem, kind string) {
	var got, want []string
	for _, rl := range res.Redundants {
		l := rl.Line()
		if l < 0 || l >= len(p.Lines) {
			o.bad("redundant line %d does not exist", l)
			continue
		}
		if p.Lines[l].Inst.Mnem == mnem {
			got = append(got, strconv.Itoa(l))
		} else if m := p.Lines[l].Inst.Mnem; m != "label" && m != "b" {
			o.bad("line %d (%q) is called redundant", l, lineText(&p.Lines[l]))
		}
	}
	for _, f := range refLint(p.insts()) {
		if strings.HasPrefix(f.Msg, kind) {
			want = append(want, strconv.Itoa(f.Line))
		}
	}
	o.sameSet("redundant lines", got, want)
}

func genDirectives(r *Rng) string {
	var sb strings.Builder
	for k := r.Rg(1, 12); k > 0; k-- {
		switch r.N(10) {
		case 0, 1, 2, 3:
			switch r.N(8) {
			case 0:
				sb.WriteString(pick(r, []string{"#pragma", "#pragma version", "#pragma version 0", "#pragma version x", "#pragma version -1", "#pragma version 1.5", "#pragma Version 5", "#pragma mode logicsig", "#pragma  versions 3", "#Pragma version 3", "#pragma version \"3\"", "#pragma version 18446744073709551616"}))
			case 1:
				sb.WriteString(pick(r, []string{"  #pragma\tversion  7 // c", "#pragma version 0x5", "#pragma version 0b11", "#pragma version 255", "#pragma version 018446744073709551615", "#pragma version 300", "#pragma version 256", "#pragma version 4294967297", "#pragma version 18446744073709551615"}))
			default:
				fmt.Fprintf(&sb, "#pragma version %d", r.Rg(1, 10))
			}
		case 4:
			sb.WriteString(pick(r, []string{"", "// c", "l:", "  ", "//#pragma version 5", ":"}))
		case 5:
			sb.WriteString(pick(r, []string{"bogus", "int", "pop 1"}))
		default:
			sb.WriteString(opLine(r, refOps[pick(r, refOpNames)], opndOpts{version: 9, labels: []string{"l"}, byNum: true}, false))
		}
		sb.WriteString(pick(r, eols))
	}
	return sb.String()
}
