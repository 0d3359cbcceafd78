package main

import (
	_ "embed"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/algorand/go-algorand-sdk/types"
	"github.com/dragmz/teal"
)

// This file is the reference reading of a TEAL source: tables, tokens, lines,
// instructions, label facts and lint facts, written independently of the
// analyser and used as the oracle the monitors compare it with.

//go:embed ref/ops.txt
var opsText string

//go:embed ref/docs.json
var docsText []byte

//go:embed ref/notes.txt
var notesText string

// refDocs: the instruction set's own description of each opcode.
var refDocs = func() map[string]struct{ Doc, Extra string } {
	out := map[string]struct{ Doc, Extra string }{}
	if err := json.Unmarshal(docsText, &out); err != nil {
		panic(err)
	}
	return out
}()

// refNotes: the description of each field, by group and name.
var refNotes = func() map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(notesText), "\n") {
		p := strings.SplitN(l, "\t", 3)
		s, err := strconv.Unquote(p[2])
		if err != nil {
			panic(err)
		}
		out[p[0]+" "+p[1]] = s
	}
	return out
}()

//go:embed ref/fields.txt
var fieldsText string

type refArg struct {
	Kind     string
	Name     string
	GoField  string
	Array    bool
	Optional bool
}

type refOp struct {
	Name     string
	App, Sig int
	Type     string
	Pops     string
	Pushes   string
	Special  bool
	Cost     string
	Args     []refArg
}

type refField struct {
	Kind    string
	Name    string
	Value   int
	Version int
	Type    byte // 'b', 'i' or '-'
}

var refOps = map[string]*refOp{}
var refOpNames []string
var refMnemByType = map[string]string{}

func init() {
	for t, m := range map[string]string{"TxnExpr": "txn", "GtxnExpr": "gtxn", "GtxnsExpr": "gtxns", "ExtractExpr": "extract",
		"ExtractUint64Expr": "extract_uint64", "BzeroExpr": "bzero", "BgteqExpr": "b>=", "BandExpr": "b&"} {
		refMnemByType[t] = m
	}
}

var refFields = map[string][]refField{}
var refFieldByName = map[string]map[string]refField{}
var refFieldByNum = map[string]map[int]refField{}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(opsText), "\n") {
		p := strings.Fields(l)
		o := &refOp{Name: p[0], Type: p[3], Cost: p[5]}
		o.App, _ = strconv.Atoi(p[1])
		o.Sig, _ = strconv.Atoi(p[2])
		if p[4] == "*" {
			o.Special = true
		} else {
			k := strings.Index(p[4], ">")
			o.Pops, o.Pushes = p[4][:k], p[4][k+1:]
		}
		for _, a := range p[6:] {
			q := strings.Split(a, ":")
			ra := refArg{Kind: q[0], Name: strings.ReplaceAll(q[1], "_", " "), GoField: q[2]}
			if strings.HasSuffix(ra.Kind, "*") {
				ra.Array = true
			}
			if strings.HasSuffix(ra.Kind, "?") {
				ra.Optional = true
			}
			ra.Kind = strings.TrimRight(ra.Kind, "*?")
			o.Args = append(o.Args, ra)
		}
		refOps[o.Name] = o
		refOpNames = append(refOpNames, o.Name)
		if o.Type != "-" {
			refMnemByType[o.Type] = o.Name
		}
	}
	for _, l := range strings.Split(strings.TrimSpace(fieldsText), "\n") {
		p := strings.Fields(l)
		f := refField{Kind: p[0], Name: p[1], Type: p[4][0]}
		f.Value, _ = strconv.Atoi(p[2])
		f.Version, _ = strconv.Atoi(p[3])
		refFields[f.Kind] = append(refFields[f.Kind], f)
		if refFieldByName[f.Kind] == nil {
			refFieldByName[f.Kind] = map[string]refField{}
			refFieldByNum[f.Kind] = map[int]refField{}
		}
		refFieldByName[f.Kind][f.Name] = f
		refFieldByNum[f.Kind][f.Value] = f
	}
	loadStraightOps()
}

var refConsts = map[string]uint64{
	"unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6,
	"Payment": 1, "KeyRegistration": 2, "AssetConfig": 3, "AssetTransfer": 4, "AssetFreeze": 5, "ApplicationCall": 6,
	"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5,
}

// ---------------------------------------------------------------- tokens

type rTok struct {
	Kind       string // EOL, Value, Comment
	Line, B, E int
	Off        int    // byte offset in the source
	Raw        string // exact source bytes
	Val        string // what the token denotes: a string without the escapes of its quotes, a comment without its slashes
	Bad        bool   // a string that is not closed on its line
}

func refLex(src string) []rTok {
	var out []rTok
	line, ls := 0, 0
	i := 0
	add := func(kind string, from, to int, val string, bad bool) {
		out = append(out, rTok{Kind: kind, Line: line, B: from - ls, E: to - ls, Off: from, Raw: src[from:to], Val: val, Bad: bad})
	}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t':
			i++
		case ch == '\n' || ch == '\r':
			j := i + 1
			if ch == '\r' && j < len(src) && src[j] == '\n' {
				j++
			}
			add("EOL", i, j, src[i:j], false)
			line++
			ls = j
			i = j
		case ch == '"':
			j := i + 1
			closed := false
			for j < len(src) && src[j] != '\n' && src[j] != '\r' {
				if src[j] == '\\' && j+1 < len(src) && src[j+1] != '\n' && src[j+1] != '\r' {
					j += 2
					continue
				}
				if src[j] == '"' {
					closed = true
					j++
					break
				}
				j++
			}
			val := src[i:j]
			if closed {
				val = `"` + strings.ReplaceAll(src[i+1:j-1], `\"`, `"`) + `"`
			}
			add("Value", i, j, val, !closed)
			i = j
		default:
			j := i
			if ch == '/' && i+1 < len(src) && src[i+1] == '/' {
				n := len(out)
				afterB64 := n > 0 && out[n-1].Kind == "Value" && (out[n-1].Raw == "base64" || out[n-1].Raw == "b64")
				if !afterB64 {
					for j < len(src) && src[j] != '\n' && src[j] != '\r' {
						j++
					}
					add("Comment", i, j, src[i+2:j], false)
					i = j
					continue
				}
			}
			for j < len(src) && src[j] != '\n' && src[j] != '\r' && src[j] != ' ' && src[j] != '\t' {
				j++
			}
			add("Value", i, j, src[i:j], false)
			i = j
		}
	}
	return out
}

// refLines groups the tokens by line.
func refLines(ts []rTok) [][]rTok {
	var out [][]rTok
	var cur []rTok
	open := false
	for _, t := range ts {
		if t.Kind == "EOL" {
			out = append(out, cur)
			cur, open = nil, false
			continue
		}
		cur = append(cur, t)
		open = true
	}
	if open {
		out = append(out, cur)
	}
	return out
}

// ---------------------------------------------------------------- instructions

// rInst is an instruction in canonical form.
type rInst struct {
	Mnem   string // "" for an empty entry; "label", "#pragma" for these
	Str    string // canonical text: mnemonic and operand values
	Labels []string
	Nums   map[string]int64
	U64    []uint64
	Bytes  [][]byte
	Text   string
}

func (i *rInst) nop() bool { return i.Mnem == "" || i.Mnem == "label" || i.Mnem == "#pragma" }

type rRole struct {
	Kind string // op, num, str, key, macro, ref, label
	Tok  rTok
}

type rLine struct {
	Toks    []rTok // without a trailing comment
	All     []rTok
	Comment bool // a comment-only line
	Inst    rInst
	Err     bool   // a parse error must be reported on this line
	ErrWhy  string // for messages
	Surplus bool
	Syntax  bool // an unclosed string
	Known   bool // the first token is a known opcode
	Op      *refOp
	Mode    string // mode in force
	Version uint64 // version in force when the line is read
	NoMode  bool
	Need    uint64 // introducing version when it is too new, else 0
	Roles   []rRole
}

type rSym struct {
	Name    string
	Tok     rTok
	Docs    string
	HasSig  bool
	In, Out int
}

type rProg struct {
	Src     string
	Toks    []rTok
	Lines   []rLine
	Syms    []rSym
	Refs    []rTok
	Mode    string
	Version uint64
	Syntax  bool
}

func (p *rProg) hasErr() bool {
	for i := range p.Lines {
		if p.Lines[i].Err || p.Lines[i].Syntax {
			return true
		}
	}
	return false
}

func (p *rProg) defs() map[string][]int {
	m := map[string][]int{}
	for _, s := range p.Syms {
		m[s.Name] = append(m[s.Name], s.Tok.Line)
	}
	return m
}

func isU8(s string) (int, bool) {
	v, err := strconv.ParseUint(s, 10, 8)
	return int(v), err == nil
}

func canonBytes(b []byte) string { return "0x" + hex.EncodeToString(b) }

func refAnalyse(src string) *rProg {
	p := &rProg{Src: src, Mode: "app", Version: 1}
	p.Toks = refLex(src)
	var comments []string
	var curLabel = -1
	for li, all := range refLines(p.Toks) {
		_ = li
		l := rLine{All: all, Toks: all, Mode: p.Mode, Version: p.Version}
		for i, t := range all {
			if t.Bad {
				l.Syntax = true
				p.Syntax = true
			}
			if t.Kind == "Comment" && i > 0 {
				l.Toks = all[:i]
				break
			}
		}
		switch {
		case len(l.Toks) == 0:
		case l.Toks[0].Kind == "Comment":
			l.Comment = true
			if strings.TrimSpace(l.Toks[0].Val) == "#pragma mode logicsig" {
				p.Mode = "sig"
				l.Mode = "sig"
			} else {
				comments = append(comments, l.Toks[0].Val)
			}
		case strings.HasSuffix(l.Toks[0].Val, ":"):
			name := strings.TrimSuffix(l.Toks[0].Val, ":")
			if name == "" {
				l.Err, l.ErrWhy = true, "label without a name"
				break
			}
			l.Inst = rInst{Mnem: "label", Str: "label " + strconv.Quote(name), Text: name}
			l.Roles = append(l.Roles, rRole{"label", l.Toks[0]})
			p.Syms = append(p.Syms, rSym{Name: name, Tok: l.Toks[0], Docs: strings.Join(comments, "\n")})
			comments = nil
			curLabel = len(p.Syms) - 1
		case l.Toks[0].Val == "#pragma":
			refPragma(p, &l)
		default:
			refInstr(p, &l)
			if l.Inst.Mnem == "proto" && curLabel >= 0 {
				s := &p.Syms[curLabel]
				s.HasSig, s.In, s.Out = true, int(l.Inst.Nums["Args"]), int(l.Inst.Nums["Results"])
			}
		}
		for _, r := range l.Roles {
			if r.Kind == "ref" {
				p.Refs = append(p.Refs, r.Tok)
			}
		}
		p.Lines = append(p.Lines, l)
	}
	return p
}

func refPragma(p *rProg, l *rLine) {
	l.Roles = append(l.Roles, rRole{"macro", l.Toks[0]})
	if len(l.Toks) < 2 {
		l.Err, l.ErrWhy = true, "directive without a name"
		return
	}
	if l.Toks[1].Val != "version" {
		l.Err, l.ErrWhy = true, "unknown directive"
		return
	}
	l.Roles = append(l.Roles, rRole{"macro", l.Toks[1]})
	if len(l.Toks) < 3 {
		l.Err, l.ErrWhy = true, "version directive without a version"
		return
	}
	v, err := strconv.ParseUint(l.Toks[2].Val, 0, 64)
	if err != nil {
		l.Err, l.ErrWhy = true, "malformed version"
		return
	}
	l.Roles = append(l.Roles, rRole{"num", l.Toks[2]})
	if v == 0 {
		l.Err, l.ErrWhy = true, "version zero"
		return
	}
	if v > 255 {
		l.Err, l.ErrWhy = true, "version above 255"
		return
	}
	p.Version = v
	l.Inst = rInst{Mnem: "#pragma", Str: fmt.Sprintf("#pragma Version=%d", v), Nums: map[string]int64{"Version": int64(v)}}
}

type refFail struct{ why string }

func refInstr(p *rProg, l *rLine) {
	op := refOps[l.Toks[0].Val]
	if op == nil {
		l.Err, l.ErrWhy = true, "unknown opcode"
		return
	}
	l.Known, l.Op = true, op
	l.Roles = append(l.Roles, rRole{"op", l.Toks[0]})
	intro := op.App
	if l.Mode == "sig" {
		intro = op.Sig
	}
	if intro == 0 {
		l.NoMode = true
	} else if uint64(intro) > l.Version {
		l.Need = uint64(intro)
	}

	pos := 1
	next := func() (rTok, bool) {
		if pos < len(l.Toks) {
			pos++
			return l.Toks[pos-1], true
		}
		return rTok{}, false
	}
	role := func(k string, t rTok) { l.Roles = append(l.Roles, rRole{k, t}) }
	fail := func(f string, a ...interface{}) { panic(refFail{fmt.Sprintf(f, a...)}) }

	inst := rInst{Mnem: op.Name, Nums: map[string]int64{}}
	var parts []string
	given := map[string]bool{}

	one := func(a refArg, t rTok) string {
		v := t.Val
		switch a.Kind {
		case "int", "u64":
			n, err := strconv.ParseUint(v, 0, 64)
			if c, ok := refConsts[v]; ok && a.Kind == "int" {
				n, err = c, nil
			}
			if err != nil {
				fail("operand %s is not a 64-bit number: %s", a.Name, v)
			}
			role("num", t)
			inst.U64 = append(inst.U64, n)
			return strconv.FormatUint(n, 10)
		case "u8":
			n, ok := isU8(v)
			if !ok {
				fail("operand %s is not a decimal number 0..255: %s", a.Name, v)
			}
			role("num", t)
			inst.Nums[a.GoField] = int64(n)
			return strconv.Itoa(n)
		case "i8":
			n, err := strconv.ParseInt(v, 10, 8)
			if err != nil {
				fail("operand %s is not a number -128..127: %s", a.Name, v)
			}
			role("num", t)
			inst.Nums[a.GoField] = n
			return strconv.FormatInt(n, 10)
		case "label":
			role("ref", t)
			inst.Labels = append(inst.Labels, v)
			return strconv.Quote(v)
		case "addr":
			if _, err := types.DecodeAddress(v); err != nil {
				fail("bad address %s", v)
			}
			role("str", t)
			inst.Text = v
			return strconv.Quote(v)
		case "sig":
			if len(v) < 2 || v[0] != '"' || v[len(v)-1] != '"' {
				fail("signature without quotes")
			}
			role("str", t)
			inst.Text = v[1 : len(v)-1]
			return strconv.Quote(inst.Text)
		case "bytes":
			b := refBytes(t, next, role, fail)
			inst.Bytes = append(inst.Bytes, b)
			return canonBytes(b)
		default: // a field
			if f, ok := refFieldByName[a.Kind][v]; ok {
				if uint64(f.Version) > l.Version {
					fail("field %s needs version %d", v, f.Version)
				}
				role("str", t)
				inst.Nums[a.GoField] = int64(f.Value)
				return strconv.Itoa(f.Value)
			}
			n, ok := isU8(v)
			if !ok {
				fail("no field %s here", v)
			}
			role("num", t)
			inst.Nums[a.GoField] = int64(n)
			return strconv.Itoa(n)
		}
	}

	failed := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				f, ok := e.(refFail)
				if !ok {
					panic(e)
				}
				failed = f.why
			}
		}()
		for ai, a := range op.Args {
			if a.Array {
				var xs []string
				for {
					t, ok := next()
					if !ok {
						break
					}
					xs = append(xs, one(a, t))
				}
				parts = append(parts, a.GoField+"=["+strings.Join(xs, ",")+"]")
				continue
			}
			t, ok := next()
			if !ok {
				// optional operands may be left out, but "extract" takes none or both
				if a.Optional && !(op.Name == "extract" && ai == 1) {
					break
				}
				fail("operand %s is missing", a.Name)
			}
			parts = append(parts, a.GoField+"="+one(a, t))
			given[a.GoField] = true
		}
	}()
	if failed != "" {
		l.Err, l.ErrWhy = true, failed
		return
	}
	switch op.Name {
	case "extract":
		if !given["Start"] {
			inst.Mnem = "extract3"
		}
	case "replace":
		inst.Mnem = "replace3"
		if given["Start"] {
			inst.Mnem = "replace2"
		}
	case "txn", "gtxn", "gtxns":
		if given["Index"] {
			inst.Mnem = map[string]string{"txn": "txna", "gtxn": "gtxna", "gtxns": "gtxnsa"}[op.Name]
		}
	}
	sort.Strings(parts)
	inst.Str = strings.TrimSpace(inst.Mnem + " " + strings.Join(parts, " "))
	l.Inst = inst
	if pos < len(l.Toks) {
		l.Err, l.Surplus, l.ErrWhy = true, true, "more operands than the opcode takes"
	}
}

func refBytes(t rTok, next func() (rTok, bool), role func(string, rTok), fail func(string, ...interface{})) []byte {
	v := t.Val
	dec := func(enc, s string) []byte {
		if strings.HasSuffix(enc, "64") {
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				fail("bad base64")
			}
			return b
		}
		b, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(s)
		if err != nil {
			b, err = base32.StdEncoding.DecodeString(s)
		}
		if err != nil {
			fail("bad base32")
		}
		return b
	}
	for _, enc := range []string{"base32", "b32", "base64", "b64"} {
		if strings.HasPrefix(v, enc+"(") {
			k := strings.IndexByte(v, ')')
			if k < 0 {
				fail("missing parenthesis")
			}
			b := dec(enc, v[len(enc)+1:k])
			role("str", t)
			return b
		}
		if v == enc {
			role("key", t)
			lit, ok := next()
			if !ok {
				fail("encoding without a literal")
			}
			b := dec(enc, lit.Val)
			role("str", lit)
			return b
		}
	}
	if strings.HasPrefix(v, "0x") {
		b, err := hex.DecodeString(v[2:])
		if err != nil {
			fail("bad hex")
		}
		role("str", t)
		return b
	}
	if t.Raw[0] == '"' && !t.Bad {
		b, ok := refUnquote(t.Raw[1 : len(t.Raw)-1])
		if !ok {
			fail("bad escape")
		}
		role("str", t)
		return b
	}
	fail("not a byte constant: %s", v)
	return nil
}

// refUnquote decodes the inside of a quoted string as written in the source.
func refUnquote(s string) ([]byte, bool) {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		i++
		if i == len(s) {
			return nil, false
		}
		switch s[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case '\\':
			out = append(out, '\\')
		case '"':
			out = append(out, '"')
		case 'x':
			if i+2 >= len(s) {
				return nil, false
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return nil, false
			}
			out = append(out, byte(n))
			i += 2
		default:
			return nil, false
		}
	}
	return out, true
}

// ---------------------------------------------------------------- canonical form of the analyser's own instructions

func typeName(op teal.Op) string {
	t := reflect.TypeOf(op)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

// canonOp reduces an instruction of a listing to mnemonic and operand values.
func canonOp(op teal.Op) string {
	if op == nil {
		return "<nil>"
	}
	tn := typeName(op)
	switch o := op.(type) {
	case *teal.LabelExpr:
		return "label " + strconv.Quote(o.Name)
	case *teal.EmptyExpr:
		return ""
	case *teal.PragmaExpr:
		return fmt.Sprintf("#pragma Version=%d", o.Version)
	case *teal.CommentExpr:
		return "//" + o.Text
	}
	mn, ok := refMnemByType[tn]
	if !ok {
		f := strings.Fields(op.String())
		if len(f) > 0 {
			mn = f[0]
		}
	}
	rv := reflect.ValueOf(op)
	for rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	var parts []string
	if rv.Kind() == reflect.Struct {
		rt := rv.Type()
		for i := 0; i < rv.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || f.Name == "Format" {
				continue
			}
			parts = append(parts, f.Name+"="+canonVal(rv.Field(i)))
		}
	}
	sort.Strings(parts)
	return strings.TrimSpace(mn + " " + strings.Join(parts, " "))
}

func canonVal(v reflect.Value) string {
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *teal.LabelExpr:
			if x == nil {
				return "nil"
			}
			return strconv.Quote(x.Name)
		case []byte:
			return canonBytes(x)
		}
	}
	switch v.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		var xs []string
		for i := 0; i < v.Len(); i++ {
			xs = append(xs, canonVal(v.Index(i)))
		}
		return "[" + strings.Join(xs, ",") + "]"
	}
	return fmt.Sprintf("%v", v)
}

func canonListing(l teal.Listing) []string {
	out := make([]string, len(l))
	for i, op := range l {
		out[i] = canonOp(op)
	}
	return out
}

// ---------------------------------------------------------------- lint facts

type rLint struct {
	Line int
	Rule string
	Msg  string // a normal form of the finding
}

// refLint derives the findings of rules 1 to 6 from canonical instructions.
func refLint(ins []rInst) []rLint {
	var out []rLint
	add := func(line int, rule, msg string) { out = append(out, rLint{line, rule, msg}) }
	defs := map[string][]int{}
	uses := map[string]int{}
	for i := range ins {
		if ins[i].Mnem == "label" {
			defs[ins[i].Text] = append(defs[ins[i].Text], i)
		}
		for _, l := range ins[i].Labels {
			uses[l]++
		}
	}
	// labels
	for i := range ins {
		if ins[i].Mnem == "label" {
			n := ins[i].Text
			if len(defs[n]) > 1 {
				add(i, "LINT0001", "duplicate "+n)
			}
			if uses[n] == 0 {
				add(i, "LINT0002", "unused "+n)
			}
		}
		for _, l := range ins[i].Labels {
			if len(defs[l]) == 0 {
				add(i, "LINT0005", "missing "+l)
			}
		}
	}
	// unreachable: a single pass carrying "control cannot arrive here"
	dead := false
	for i := range ins {
		x := &ins[i]
		if x.Mnem == "label" && uses[x.Text] > 0 {
			dead = false
		}
		if x.nop() {
			continue
		}
		if dead {
			add(i, "LINT0003", "unreachable")
		}
		if x.Mnem == "b" || x.Mnem == "return" || x.Mnem == "err" {
			dead = true
		}
	}
	for i := range ins {
		if ins[i].Mnem != "b" {
			continue
		}
		t := ins[i].Labels[0]
		// redundant jump
		for j := i + 1; j < len(ins); j++ {
			if ins[j].Mnem == "label" {
				if ins[j].Text == t {
					add(i, "LINT0004", "redundant jump")
				}
				break
			}
			if !ins[j].nop() {
				break
			}
		}
		// infinite loop
		head := -1
		for _, d := range defs[t] {
			if d < i {
				head = d
			}
		}
		if head < 0 {
			continue
		}
		escapes := false
		for j := head; j <= i && !escapes; j++ {
			switch ins[j].Mnem {
			case "err", "return", "retsub":
				escapes = true
			}
			for _, l := range ins[j].Labels {
				for _, d := range defs[l] {
					if d < head || d > i {
						escapes = true
					}
				}
			}
		}
		if !escapes {
			add(i, "LINT0005", "infinite loop")
		}
	}
	// misplaced version directives
	before := false
	for i := range ins {
		if ins[i].Mnem == "#pragma" {
			if before {
				add(i, "LINT0006", "misplaced directive")
			}
			before = true
		} else if !ins[i].nop() {
			before = true
		}
	}
	return out
}

func (p *rProg) insts() []rInst {
	out := make([]rInst, len(p.Lines))
	for i := range p.Lines {
		out[i] = p.Lines[i].Inst
	}
	return out
}

// lintKind puts a lint diagnostic of the analyser into the same normal form.
// The wording is not compared, only the finding it states.
func lintKind(d teal.Diagnostic) string { return lintKind2(d.Rule(), d.String()) }

func lintKind2(rule, s string) string {
	switch {
	case rule == "LINT0001":
		return "duplicate " + quotedPart(s)
	case rule == "LINT0002":
		return "unused " + quotedPart(s)
	case rule == "LINT0003":
		return "unreachable"
	case rule == "LINT0004":
		return "redundant jump"
	case rule == "LINT0005":
		if strings.Contains(s, "missing") {
			return "missing " + quotedPart(s)
		}
		return "infinite loop"
	case rule == "LINT0006":
		return "misplaced directive"
	}
	return s
}

func quotedPart(s string) string {
	a := strings.IndexByte(s, '"')
	b := strings.LastIndexByte(s, '"')
	if a < 0 || b <= a {
		return s
	}
	return s[a+1 : b]
}
