package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
)

// ---------------------------------------------------------------- O01

const (
	pcEnd     = -1
	pcDiverge = -2
	pcMissing = -3
)

type ctlOp struct {
	canon   string
	kind    string // "", b, bz, bnz, switch, match, callsub, end, nop, label
	targets []string
}

func ctlOps(l teal.Listing) []ctlOp {
	out := make([]ctlOp, len(l))
	for i, op := range l {
		c := ctlOp{canon: canonOp(op)}
		switch o := op.(type) {
		case *teal.LabelExpr:
			c.kind, c.targets = "label", []string{o.Name}
		case *teal.BExpr:
			c.kind, c.targets = "b", []string{o.Label.Name}
		case *teal.BzExpr:
			c.kind, c.targets = "bz", []string{o.Label.Name}
		case *teal.BnzExpr:
			c.kind, c.targets = "bnz", []string{o.Label.Name}
		case *teal.CallSubExpr:
			c.kind, c.targets = "callsub", []string{o.Label.Name}
		case *teal.SwitchExpr:
			c.kind = "switch"
			for _, t := range o.Targets {
				c.targets = append(c.targets, t.Name)
			}
		case *teal.MatchExpr:
			c.kind = "match"
			for _, t := range o.Targets {
				c.targets = append(c.targets, t.Name)
			}
		case *teal.ReturnExpr, *teal.ErrExpr, *teal.RetSubExpr:
			c.kind = "end"
		default:
			if c.canon == "" || strings.HasPrefix(c.canon, "//") || strings.HasPrefix(c.canon, "#pragma") {
				c.kind = "nop"
			}
		}
		out[i] = c
	}
	return out
}

type ctlProg struct {
	ops  []ctlOp
	syms map[string]int
	dup  bool
}

func newCtl(l teal.Listing) *ctlProg {
	p := &ctlProg{ops: ctlOps(l), syms: map[string]int{}}
	for i, o := range p.ops {
		if o.kind == "label" {
			if _, ok := p.syms[o.targets[0]]; ok {
				p.dup = true
			}
			p.syms[o.targets[0]] = i
		}
	}
	return p
}

// settle skips what performs nothing and follows unconditional jumps.
func (p *ctlProg) settle(pc int) int {
	seen := map[int]bool{}
	for {
		if pc >= len(p.ops) {
			return pcEnd
		}
		if seen[pc] {
			return pcDiverge
		}
		seen[pc] = true
		switch p.ops[pc].kind {
		case "label", "nop":
			pc++
		case "b":
			t, ok := p.syms[p.ops[pc].targets[0]]
			if !ok {
				return pcMissing
			}
			pc = t
		default:
			return pc
		}
	}
}

func (p *ctlProg) at(label string) int {
	t, ok := p.syms[label]
	if !ok {
		return pcMissing
	}
	return p.settle(t)
}

// bisim compares two listings from their starts, instruction by instruction.
func bisim(a, b *ctlProg) (string, int) {
	type pair struct{ x, y int }
	seen := map[pair]bool{}
	work := []pair{{a.settle(0), b.settle(0)}}
	n := 0
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[p] {
			continue
		}
		seen[p] = true
		if p.x < 0 || p.y < 0 {
			if p.x != p.y {
				return fmt.Sprintf("original at %s, optimised at %s", a.show(p.x), b.show(p.y)), n
			}
			continue
		}
		n++
		x, y := a.ops[p.x], b.ops[p.y]
		if x.kind != y.kind || len(x.targets) != len(y.targets) || (len(x.targets) == 0 && x.canon != y.canon) {
			return fmt.Sprintf("original at %s, optimised at %s", a.show(p.x), b.show(p.y)), n
		}
		for k := range x.targets {
			work = append(work, pair{a.at(x.targets[k]), b.at(y.targets[k])})
		}
		if x.kind != "end" {
			work = append(work, pair{a.settle(p.x + 1), b.settle(p.y + 1)})
		}
	}
	return "", n
}

func (p *ctlProg) show(pc int) string {
	switch pc {
	case pcEnd:
		return "the end"
	case pcDiverge:
		return "an endless jump"
	case pcMissing:
		return "an undefined label"
	}
	return fmt.Sprintf("%d %q", pc, p.ops[pc].canon)
}

func init() {
	plain := []string{"int 1", "pop", "byte 0x41", "proto 1 2", "+", "txn Fee", "int 2", "assert"}
	gens := []GenSpec{
		gsrc("control", 30000, 500000, func(r *Rng) string {
			return genControl(r, cfOpts{n: r.Rg(1, 18), labels: r.Rg(1, 5), plain: plain, missing: r.P(1, 3), version: 8, switches: true, noise: r.P(1, 3)})
		}),
		gsrc("dense", 20000, 300000, func(r *Rng) string {
			// almost only labels and jumps
			names := []string{"a", "b", "c", "d", "e", "f"}[:r.Rg(2, 6)]
			perm := append([]string{}, names...)
			for i := range perm {
				j := r.N(i + 1)
				perm[i], perm[j] = perm[j], perm[i]
			}
			var ls []string
			for _, n := range perm {
				for k := r.N(3); k > 0; k-- {
					ls = append(ls, pick(r, []string{"b " + pick(r, names), "b " + n, "callsub " + pick(r, names), "retsub", "return", "err", "int 1", "bz " + pick(r, names), "// c", "", "proto 0 0", "switch " + pick(r, names) + " " + pick(r, names)}))
				}
				ls = append(ls, n+":")
			}
			for k := r.N(3); k > 0; k-- {
				ls = append(ls, pick(r, []string{"b " + pick(r, names), "retsub", "int 7", "return"}))
			}
			return strings.Join(ls, "\n")
		}),
		gsrc("valid", 4000, 60000, func(r *Rng) string {
			return genValid(r, validOpts{n: r.Rg(1, 20), version: 8})
		}),
		gsrc("flow", 2000, 30000, func(r *Rng) string { return genFlow(r, r.Rg(1, 15), false) }),
		gsrc("mutated", 1500, 20000, genMutated),
		largeValid(36, 900),
	}
	{
		register(&Check{
			ID:      "O02",
			Rule:    "listings parsed from generated control-flow programs, or built with shared label objects, are optimised and the result searched for what should be gone. Non-trivial: the optimiser removed something.",
			Gens:    append(append([]GenSpec{}, gens...), GenSpec{Name: "short-programs", Quick: 20736, Thorough: 248832, Make: enumControl}),
			Require: []string{"removed", "comments kept", "dead code", "idle jumps", "idle labels"},
			Run: func(c *Case, o *Obs) {
				for _, shared := range []bool{false, true} {
					l := teal.Process(string(c.Src)).Listing
					if shared {
						l = shareLabels(l)
					}
					a := newCtl(l)
					pre := &Obs{}
					leftOver(a, a, l, pre)
					for _, v := range pre.problems {
						switch {
						case strings.Contains(v, "never be reached"):
							o.count("dead code", 1)
						case strings.Contains(v, "next instruction"):
							o.count("idle jumps", 1)
						default:
							o.count("idle labels", 1)
						}
					}
					opt := l.Optimize()
					b := newCtl(opt)
					leftOver(a, b, opt, o)
					o.count("removed", len(a.ops)-len(b.ops))
					o.nontrivial = o.nontrivial || len(b.ops) < len(a.ops)
				}
			},
		})
	}
	register(&Check{
		ID:      "O01",
		Rule:    "listings parsed from generated control-flow programs, or built with shared label objects; original and optimised listing are walked together over all branch outcomes. Non-trivial: the optimiser removed something; distinct by program.",
		Gens:    gens,
		Require: []string{"removed", "pairs"},
		Run: func(c *Case, o *Obs) {
			for _, shared := range []bool{false, true} {
				l := teal.Process(string(c.Src)).Listing
				if shared {
					l = shareLabels(l)
				}
				a := newCtl(l)
				if a.dup {
					o.count("duplicate_labels", 1)
					return
				}
				opt := l.Optimize()
				b := newCtl(opt)
				why, n := bisim(a, b)
				o.count("pairs", n)
				if why != "" {
					o.bad("%s (labels shared: %v)\noptimised:\n%s", why, shared, opt.String())
					return
				}
				for _, x := range b.ops {
					if x.kind == "label" || x.kind == "" || x.kind == "nop" || x.kind == "end" {
						continue
					}
					for _, t := range x.targets {
						if _, ok := b.syms[t]; !ok {
							if _, ok := a.syms[t]; ok {
								o.bad("%q refers to %s, which the optimised listing no longer defines", x.canon, t)
							}
						}
					}
				}
				// the version in force is part of what the instructions mean
				if x, y := pragmas(a), pragmas(b); x != y {
					o.bad("version directives before %q, after %q", x, y)
				}
				if len(b.ops) < len(a.ops) {
					o.count("removed", len(a.ops)-len(b.ops))
					o.nontrivial = true
				}
			}
		},
		Assume: []string{"unconditional jumps themselves are not counted as performed instructions", "programs that define a label twice are left out"},
	})
}

// ---------------------------------------------------------------- O02

// leftOver names what the optimiser exists to remove and is still in the listing.
func leftOver(a, b *ctlProg, opt teal.Listing, o *Obs) {
	for i, x := range b.ops {
		if x.kind != "b" && x.canon != "return" && x.canon != "err" {
			continue
		}
		for j := i + 1; j < len(b.ops) && b.ops[j].kind != "label"; j++ {
			if b.ops[j].kind != "nop" {
				o.bad("%q can never be reached (it follows %q) but is still there", b.ops[j].canon, x.canon)
			}
		}
		if x.kind == "b" {
			j := i + 1
			for j < len(b.ops) && b.ops[j].kind == "nop" {
				j++
			}
			if j < len(b.ops) && b.ops[j].kind == "label" && b.ops[j].targets[0] == x.targets[0] {
				o.bad("%q jumps to the next instruction but is still there", x.canon)
			}
		}
	}
	used, sub := map[string]bool{}, map[string]bool{}
	for i, x := range a.ops {
		if x.kind != "label" {
			for _, t := range x.targets {
				used[t] = true
			}
			continue
		}
		j := i + 1
		for j < len(a.ops) && (a.ops[j].kind == "nop" || a.ops[j].kind == "label") {
			j++
		}
		if j < len(a.ops) && (a.ops[j].canon == "retsub" || strings.HasPrefix(a.ops[j].canon, "proto ")) {
			sub[x.targets[0]] = true
		}
	}
	for _, x := range b.ops {
		if x.kind == "label" && !used[x.targets[0]] && !sub[x.targets[0]] {
			o.bad("nothing refers to label %q, which is still there", x.targets[0])
		}
	}
	var x, y []string
	for _, q := range a.ops {
		switch {
		case q.kind == "nop":
			x = append(x, q.canon)
		}
	}
	for _, q := range b.ops {
		if q.kind == "nop" {
			y = append(y, q.canon)
		}
	}
	if strings.Join(x, "\n") != strings.Join(y, "\n") {
		o.bad("comments, blank lines and directives before: %q, after: %q", x, y)
	}
	o.count("comments kept", len(y))
}

func pragmas(p *ctlProg) string {
	var out []string
	for _, o := range p.ops {
		if strings.HasPrefix(o.canon, "#pragma") {
			out = append(out, o.canon)
		}
	}
	return strings.Join(out, ";")
}

// shareLabels rebuilds a listing so that branches and definitions share their
// label objects, as programs made with the builders do.
func shareLabels(l teal.Listing) teal.Listing {
	obj := map[string]*teal.LabelExpr{}
	get := func(x *teal.LabelExpr) *teal.LabelExpr {
		if obj[x.Name] == nil {
			obj[x.Name] = &teal.LabelExpr{Name: x.Name}
		}
		return obj[x.Name]
	}
	var out teal.Listing
	for _, op := range l {
		switch o := op.(type) {
		case *teal.LabelExpr:
			out = append(out, get(o))
		case *teal.BExpr:
			out = append(out, &teal.BExpr{Label: get(o.Label)})
		case *teal.BzExpr:
			out = append(out, &teal.BzExpr{Label: get(o.Label)})
		case *teal.BnzExpr:
			out = append(out, &teal.BnzExpr{Label: get(o.Label)})
		case *teal.CallSubExpr:
			out = append(out, &teal.CallSubExpr{Label: get(o.Label)})
		case *teal.SwitchExpr:
			n := &teal.SwitchExpr{}
			for _, t := range o.Targets {
				n.Targets = append(n.Targets, get(t))
			}
			out = append(out, n)
		case *teal.MatchExpr:
			n := &teal.MatchExpr{}
			for _, t := range o.Targets {
				n.Targets = append(n.Targets, get(t))
			}
			out = append(out, n)
		default:
			out = append(out, op)
		}
	}
	return out
}

// ---------------------------------------------------------------- B01

type builder struct {
	r      *Rng
	labels []*teal.LabelExpr
	uses   map[string]bool
}

func (b *builder) label() *teal.LabelExpr { return pick(b.r, b.labels) }

func (b *builder) bytes() []byte { return randBytes(b.r, pick(b.r, []int{0, 3, 12, 40})) }

// fill sets the fields of an instruction to random acceptable values.
func (b *builder) fill(op teal.Op) bool {
	r := b.r
	rv := reflect.ValueOf(op).Elem()
	rt := rv.Type()
	mn := refMnemByType[rt.Name()]
	ro := refOps[mn]
	for i := 0; i < rv.NumField(); i++ {
		f := rt.Field(i)
		fv := rv.Field(i)
		if f.PkgPath != "" {
			continue
		}
		kind := ""
		if ro != nil {
			kind = argKindOf(ro, f.Name)
		}
		if _, isField := refFields[kind]; isField {
			fs := availFields(kind, 9)
			if len(fs) == 0 {
				return false
			}
			v := pick(r, fs).Value
			switch fv.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				fv.SetInt(int64(v))
			default:
				fv.SetUint(uint64(v))
			}
			continue
		}
		switch x := fv.Addr().Interface().(type) {
		case *uint8:
			*x = uint8(randU8(r))
			if rt.Name() == "ExtractExpr" && f.Name == "Length" && r.P(1, 3) {
				*x = 0
			}
		case *int8:
			*x = int8(r.Rg(-128, 127))
		case *uint64:
			*x = randU64(r)
		case *[]uint64:
			for k := r.N(5); k > 0; k-- {
				*x = append(*x, randU64(r))
			}
		case *[]byte:
			*x = b.bytes()
		case *[][]byte:
			for k := r.N(4); k > 0; k-- {
				*x = append(*x, b.bytes())
			}
		case *teal.BytesFormat:
			*x = pick(r, []teal.BytesFormat{teal.BytesBase64, teal.BytesStringLiteral})
		case *[]teal.BytesFormat:
			return false
		case **teal.LabelExpr:
			*x = b.label()
		case *[]*teal.LabelExpr:
			for k := r.N(4); k > 0; k-- {
				*x = append(*x, b.label())
			}
		case *string:
			switch f.Name {
			case "Address":
				*x = randAddr(r)
			default:
				*x = pick(r, sigPool[:8])
			}
		default:
			switch fv.Kind() {
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				fv.SetUint(uint64(r.N(4)))
			case reflect.Int:
				fv.SetInt(int64(randU8(r)))
			default:
				return false
			}
		}
	}
	return true
}

// op makes one instruction and the canonical form expected of it.
func (b *builder) op() (teal.Expr, []string) {
	r := b.r
	if r.P(1, 5) {
		s := pick(r, builderSingles)
		return s.op, []string{canonType(s.type_)}
	}
	for {
		op := pick(r, builderTypes)()
		if b.fill(op) {
			return op, []string{canonOp(op)}
		}
	}
}

func canonType(t string) string { return refMnemByType[t] }

func cInt(v uint64) string { return fmt.Sprintf("int Value=%d", v) }

// expr makes a tree of builders with the instructions it stands for.
func (b *builder) expr(depth int) (teal.Expr, []string) {
	r := b.r
	if depth == 0 || r.P(1, 3) {
		return b.op()
	}
	two := func() (x, y teal.Expr, l []string) {
		x, a := b.expr(depth - 1)
		y, c := b.expr(depth - 1)
		return x, y, append(append([]string{}, a...), c...)
	}
	many := func() (xs []teal.Expr, l []string) {
		for k := r.N(4); k > 0; k-- {
			x, a := b.expr(depth - 1)
			if r.P(1, 10) {
				lab := b.label()
				x, a = lab, []string{"label " + fmt.Sprintf("%q", lab.Name)}
			}
			xs = append(xs, x)
			l = append(l, a...)
			if r.P(1, 12) { // the same object once more
				xs = append(xs, x)
				l = append(l, a...)
			}
		}
		return
	}
	txn := func() (teal.TxnField, int) {
		v := pick(r, availFields("txn", 9)).Value
		return teal.TxnField(v), v
	}
	q := func(l *teal.LabelExpr) string { return fmt.Sprintf("%q", l.Name) }
	qs := func(ls []*teal.LabelExpr) string {
		var out []string
		for _, l := range ls {
			out = append(out, q(l))
		}
		return "[" + strings.Join(out, ",") + "]"
	}
	lbls := func() (ls []*teal.LabelExpr) {
		for k := r.N(4); k > 0; k-- {
			ls = append(ls, b.label())
		}
		return
	}
	u8 := func() uint8 { return uint8(randU8(r)) }
	switch r.N(32) {
	case 0:
		x, y, l := two()
		return teal.Plus(x, y), append(l, "+")
	case 1:
		x, y, l := two()
		return teal.Minus(x, y), append(l, "-")
	case 2:
		x, y, l := two()
		return teal.AssertEq(x, y), append(l, "==", "assert")
	case 3:
		x, y, l := two()
		return teal.AssertLtEq(x, y), append(l, "<=", "assert")
	case 4:
		x, l := b.expr(depth - 1)
		n := randU64(r)
		return teal.AssertLen(x, n), append(append([]string{}, l...), "len", cInt(n), "==", "assert")
	case 5:
		x, l := b.expr(depth - 1)
		lo, hi := randU64(r), randU64(r)
		out := append(append([]string{}, l...), cInt(lo), ">=")
		out = append(append(out, l...), cInt(hi), "<", "&&", "assert")
		return teal.AssertInRange(x, lo, hi), out
	case 6, 7:
		xs, l := many()
		return teal.Block(xs...), l
	case 8:
		xs, l := many()
		return teal.Itxn(xs...), append(append([]string{"itxn_begin"}, l...), "itxn_submit")
	case 9:
		xs, l := many()
		return xs, l // a plain slice of expressions
	case 10:
		xs, l := many()
		lab := b.label()
		return &teal.NestedExpr{Label: lab, Body: xs}, append([]string{"label " + q(lab)}, l...)
	case 11:
		xs, l := many()
		lab := b.label()
		f := &teal.FuncExpr{Label: lab, Block: teal.Block(xs...)}
		out := []string{"label " + q(lab)}
		if r.P(1, 2) {
			a, c := u8(), u8()
			f.Proto = teal.Proto(a, c)
			out = append(out, fmt.Sprintf("proto Args=%d Results=%d", a, c))
		}
		switch {
		case r.P(1, 6): // a declaration without a body
			f.Block, l = nil, nil
		case r.P(1, 6): // a body that falls in from above
			f.Label, out = nil, out[1:]
		}
		return f, append(out, l...)
	case 12:
		xs, l := many()
		f := &teal.FuncExpr{Label: b.label()}
		return f.Call(xs...), append(l, "callsub Label="+q(f.Label))
	case 13:
		x, l := b.expr(depth - 1)
		ls := lbls()
		var out []string
		for _, lb := range ls {
			out = append(out, "byte Value="+canonBytes([]byte(lb.Name)))
		}
		return teal.MatchLabels(x, ls...), append(append(out, l...), "match Targets="+qs(ls))
	case 14:
		v := randU64(r)
		return teal.Int(v), []string{cInt(v)}
	case 15:
		v := b.bytes()
		return teal.StringBytes(string(v)), []string{"byte Value=" + canonBytes(v)}
	case 16:
		l := b.label()
		return teal.B(l), []string{"b Label=" + q(l)}
	case 17:
		l := b.label()
		return teal.Bz(l), []string{"bz Label=" + q(l)}
	case 18:
		l := b.label()
		return teal.Bnz(l), []string{"bnz Label=" + q(l)}
	case 19:
		l := b.label()
		return teal.CallSub(l), []string{"callsub Label=" + q(l)}
	case 20:
		ls := lbls()
		return teal.Switch(ls...), []string{"switch Targets=" + qs(ls)}
	case 21:
		ls := lbls()
		return teal.Match(ls...), []string{"match Targets=" + qs(ls)}
	case 22:
		v := u8()
		return teal.Cover(v), []string{fmt.Sprintf("cover Depth=%d", v)}
	case 23:
		v := u8()
		return teal.Uncover(v), []string{fmt.Sprintf("uncover Depth=%d", v)}
	case 24:
		v := u8()
		if r.P(1, 2) {
			return teal.Load(v), []string{fmt.Sprintf("load Index=%d", v)}
		}
		return teal.Store(v), []string{fmt.Sprintf("store Index=%d", v)}
	case 25:
		f, n := txn()
		if r.P(1, 2) {
			return teal.Txn(f), []string{fmt.Sprintf("txn Field=%d", n)}
		}
		return teal.Gtxns(f), []string{fmt.Sprintf("gtxns Field=%d", n)}
	case 26:
		f := pick(r, availFields("txna", 9))
		v := u8()
		return teal.Txna(teal.TxnField(f.Value), v), []string{fmt.Sprintf("txna Field=%d Index=%d", f.Value, v)}
	case 27:
		v := u8()
		return teal.Arg(v), []string{fmt.Sprintf("txna Field=%d Index=%d", refFieldByName["txn"]["ApplicationArgs"].Value, v)}
	case 28:
		f := pick(r, availFields("itxn", 9))
		return teal.ItxnField(teal.TxnField(f.Value)), []string{fmt.Sprintf("itxn_field Field=%d", f.Value)}
	case 29:
		f := pick(r, availFields("global", 9))
		return teal.Global(teal.GlobalField(f.Value)), []string{fmt.Sprintf("global Field=%d", f.Value)}
	case 30:
		v := int8(r.Rg(-128, 127))
		return teal.FrameDig(v), []string{fmt.Sprintf("frame_dig Index=%d", v)}
	default:
		t := pick(r, []string{"", "note", " x // y", "a: b", "\"open", "é", "int 1"})
		return teal.Comment(t), []string{"//" + t}
	}
}

func init() {
	register(&Check{
		ID:   "B01",
		Rule: "random trees of the package's builders and constructors with random operand values; the compiled listing is compared with the instructions the tree stands for, and the printed text, re-read by the analyser and by the reference reader, with the same. Non-trivial: at least two instructions; distinct by expected instruction list.",
		Gens: []GenSpec{
			{Name: "one", Quick: len(builderTypes) * 40, Thorough: len(builderTypes) * 800, Make: func(r *Rng, i int) *Case {
				return &Case{Seed: r.U64(), Args: mkArgs(map[string]int{"Type": i % len(builderTypes)})}
			}},
			{Name: "trees", Quick: 12000, Thorough: 250000, Make: func(r *Rng, i int) *Case {
				return &Case{Seed: r.U64(), Args: mkArgs(map[string]int{"Type": -1, "N": r.Rg(1, 5), "Depth": r.N(4)})}
			}},
		},
		Require:  []string{"instructions", "reread"},
		NoShrink: true,
		Run: func(c *Case, o *Obs) {
			var a struct{ Type, N, Depth int }
			c.args(&a)
			r := NewRng(c.Seed)
			b := &builder{r: r}
			for _, n := range labelPool {
				if r.P(1, 3) || len(b.labels) == 0 {
					b.labels = append(b.labels, teal.Label(n))
				}
			}
			prog := teal.Program{&teal.PragmaExpr{Version: 9}}
			want := []string{"#pragma Version=9"}
			if a.Type >= 0 {
				op := builderTypes[a.Type]()
				if !b.fill(op) {
					o.count("unfillable", 1)
					return
				}
				prog = append(prog, op)
				want = append(want, canonOp(op))
			} else {
				for k := 0; k < a.N; k++ {
					x, l := b.expr(a.Depth)
					prog = append(prog, x)
					want = append(want, l...)
				}
			}
			l := teal.Compile(prog)
			got := canonListing(l)
			if len(got) != len(want) {
				o.bad("compiled to %d instructions, expected %d:\n%q\n%q", len(got), len(want), got, want)
				return
			}
			for i := range want {
				if got[i] != want[i] {
					o.bad("instruction %d compiled to %q, expected %q", i, got[i], want[i])
					return
				}
			}
			o.count("instructions", len(want))
			o.nontrivial = len(want) > 2
			o.seen(strings.Join(want, ";"))
			text := prog.String()
			res := teal.Process(text)
			for _, d := range res.Diagnostics {
				if d.Rule() == "PARSE" || d.Rule() == "SYNTAX" {
					o.bad("the printed program is not accepted: line %d: %s\n%s", d.Line(), d.String(), text)
					return
				}
			}
			keep := func(l []string) (out []string) {
				for _, s := range l {
					if s != "" && !strings.HasPrefix(s, "//") {
						out = append(out, s)
					}
				}
				return
			}
			w, g := keep(want), keep(canonListing(res.Listing))
			ref := []string{}
			for _, l := range refAnalyse(text).Lines {
				ref = append(ref, l.Inst.Str)
			}
			rf := keep(ref)
			if len(g) != len(w) || len(rf) != len(w) {
				o.bad("the printed program reads back as %d instructions (reference %d), expected %d:\n%s", len(g), len(rf), len(w), text)
				return
			}
			for i := range w {
				if g[i] != w[i] || rf[i] != w[i] {
					o.bad("instruction %q reads back as %q (reference %q):\n%s", w[i], g[i], rf[i], text)
					return
				}
			}
			o.count("reread", len(w))
		},
		Assume: []string{"method signatures without quotes or backslashes, one-line comments, label names without quotes and white space, field values defined at version 9"},
	})
}

// ---------------------------------------------------------------- T02

func digest(res *teal.ProcessResult) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "mode %v version %d\n", res.Mode, res.Version)
	if res.VersionToken != nil {
		fmt.Fprintf(&sb, "vt %d %d\n", res.VersionToken.Line(), res.VersionToken.Begin())
	}
	sb.WriteString(strings.Join(diagKeys(res), "\n"))
	toks := func(n string, ts []teal.Token) {
		fmt.Fprintf(&sb, "\n%s:", n)
		var l []string
		for i := range ts {
			l = append(l, fmt.Sprintf("%d.%d-%d %q", ts[i].Line(), ts[i].Begin(), ts[i].End(), ts[i].String()))
		}
		if n != "tokens" {
			sort.Strings(l)
		}
		sb.WriteString(strings.Join(l, "|"))
	}
	toks("tokens", res.Tokens)
	toks("ops", res.Ops)
	toks("numbers", res.Numbers)
	toks("strings", res.Strings)
	toks("keywords", res.Keywords)
	toks("macros", res.Macros)
	toks("refs", res.SymbolRefs)
	toks("miss", res.MissRefs)
	sb.WriteString("\nlisting:" + strings.Join(canonListing(res.Listing), "|"))
	var l []string
	for _, s := range res.Symbols {
		l = append(l, fmt.Sprintf("%d.%d-%d %q %q", s.Line(), s.Begin(), s.End(), s.Name(), s.Docs()))
	}
	sort.Strings(l)
	sb.WriteString("\nsymbols:" + strings.Join(l, "|"))
	l = nil
	for k, v := range res.RefCounts {
		l = append(l, fmt.Sprintf("%q=%d", k, v))
	}
	sort.Strings(l)
	sb.WriteString("\ncounts:" + strings.Join(l, "|"))
	l = nil
	for _, v := range res.Redundants {
		l = append(l, fmt.Sprint(v.Line()))
	}
	sort.Strings(l)
	sb.WriteString("\nredundant:" + strings.Join(l, "|"))
	return sb.String()
}

type concArgs struct {
	Srcs []string
	Jobs int
}

var canaryMu sync.Mutex
var canary = map[string]string{}

func simulate(src string) string {
	vm := teal.NewVm(teal.Process(src))
	for i := 0; i < 150 && vm.Branch != nil && vm.Error == nil && len(vm.Branches) < 60; i++ {
		vm.Step()
	}
	return shot(vm)
}

// frameAs frames a message with one of the headers a client may send.
func frameAs(s string) string {
	n := len(s)
	switch h64([]byte(s)) >> 8 % 24 {
	case 0:
		return fmt.Sprintf("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %d\r\n\r\n%s", n, s)
	case 1:
		return fmt.Sprintf("content-length: %d\r\n\r\n%s", n, s)
	case 2:
		return fmt.Sprintf("Content-Length: %d\r\nContent-Type: application/vscode-jsonrpc; charset=utf8\r\n\r\n%s", n, s)
	case 3:
		return fmt.Sprintf("Content-Length: %d\r\nContent-Type: application/vscode-jsonrpc\r\n\r\n%s", n, s)
	case 4:
		return fmt.Sprintf("CONTENT-LENGTH:%d\r\nX-Note: a b: c\r\n\r\n%s", n, s)
	}
	return frame(s)
}

func frame(s string) string { return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(s), s) }

func serveOnce(src string) int {
	var in bytes.Buffer
	in.WriteString(frame(`{"jsonrpc":"2.0","id":1,"method":"initialize","params":{}}`))
	in.WriteString(frame(`{"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":"file:///a.teal","text":` + string(mkArgs(strings.ToValidUTF8(src, "?"))) + `}}}`))
	for i, m := range []string{"diagnostic", "semanticTokens/full", "documentSymbol", "codeLens"} {
		in.WriteString(frame(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"textDocument/%s","params":{"textDocument":{"uri":"file:///a.teal"}}}`, 10+i, m)))
	}
	in.WriteString(frame(`{"jsonrpc":"2.0","id":30,"method":"textDocument/completion","params":{"textDocument":{"uri":"file:///a.teal"},"position":{"line":0,"character":0}}}`))
	in.WriteString(frame(`{"jsonrpc":"2.0","method":"exit"}`))
	var out bytes.Buffer
	l, err := lsp.New(&in, &out)
	if err != nil {
		return -1
	}
	l.Run()
	return strings.Count(out.String(), `"id":`)
}

func debugOnce() int {
	var in bytes.Buffer
	in.WriteString(frame(`{"seq":1,"type":"request","command":"initialize","arguments":{}}`))
	in.WriteString(frame(`{"seq":2,"type":"request","command":"threads"}`))
	var out bytes.Buffer
	d, err := dbg.New(&in, &out)
	if err != nil {
		return -1
	}
	d.Run()
	return strings.Count(out.String(), `"request_seq":`)
}

func init() {
	register(&Check{
		ID:   "T02",
		Rule: "several sources are analysed, queried, simulated and served on many goroutines at once, under the race detector, and each result is compared with that of a quiet, sequential analysis; some are compared with a new process and all canaries again at the end. Non-trivial: at least two different sources ran at the same time; distinct by sources.",
		Gens: []GenSpec{
			{Name: "concurrent", Quick: 500, Thorough: 8000, Make: func(r *Rng, i int) *Case {
				a := concArgs{Jobs: r.Rg(4, 16)}
				for k := r.Rg(2, 5); k > 0; k-- {
					a.Srcs = append(a.Srcs, strings.ToValidUTF8(genAny(r), "?"))
				}
				if r.P(1, 2) {
					a.Srcs = append(a.Srcs, genFlow(r, r.Rg(1, 10), false))
				}
				return &Case{Args: mkArgs(a), Seed: r.U64()}
			}},
			{Name: "fresh-process", Quick: 60, Thorough: 1000, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(concArgs{Srcs: []string{strings.ToValidUTF8(genAny(r), "?")}}), Seed: r.U64()}
			}},
			{Name: "repeat", Quick: 1500, Thorough: 30000, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(concArgs{Srcs: []string{strings.ToValidUTF8(genAny(r), "?"), strings.ToValidUTF8(genAny(r), "?")}}), Seed: r.U64()}
			}},
		},
		Require:  []string{"concurrent_analyses", "fresh_processes", "repeats", "servers", "simulations"},
		NoShrink: true,
		Run: func(c *Case, o *Obs) {
			var a concArgs
			c.args(&a)
			switch c.Gen {
			case "fresh-process":
				self, _ := os.Executable()
				cmd := exec.Command(self, "digest")
				cmd.Stdin = strings.NewReader(a.Srcs[0])
				out, err := cmd.Output()
				if err != nil {
					if ee, ok := err.(*exec.ExitError); ok && strings.Contains(string(ee.Stderr), "dragmz/teal") {
						o.bad("a new process fails on this source: %s", firstLines(string(ee.Stderr), 20))
						return
					}
					panic(harnessBug{"digest process: " + err.Error()})
				}
				o.count("fresh_processes", 1)
				if got := digest(teal.Process(a.Srcs[0])); got != string(out) {
					o.bad("the result differs from that of a new process: %s", diffLine(got, string(out)))
				}
				o.nontrivial = true
				return
			case "repeat":
				x := digest(teal.Process(a.Srcs[0]))
				y := digest(teal.Process(a.Srcs[1]))
				for k := 0; k < 2; k++ {
					if d := digest(teal.Process(a.Srcs[0])); d != x {
						o.bad("analysing the same text again gives another result: %s", diffLine(d, x))
						return
					}
					if d := digest(teal.Process(a.Srcs[1])); d != y {
						o.bad("analysing the same text again gives another result: %s", diffLine(d, y))
						return
					}
				}
				o.count("repeats", 2)
				canaryMu.Lock()
				if len(canary) < 150 {
					canary[a.Srcs[0]] = x
				}
				canaryMu.Unlock()
				o.nontrivial = true
				return
			}
			want := map[string]string{}
			sim := map[string]string{}
			for _, s := range a.Srcs {
				want[s] = digest(teal.Process(s))
				sim[s] = simulate(s)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			start := make(chan struct{})
			for j := 0; j < a.Jobs; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							mu.Lock()
							o.bad("panic in a concurrent analysis: %v", e)
							mu.Unlock()
						}
					}()
					<-start
					s := a.Srcs[j%len(a.Srcs)]
					res := teal.Process(s)
					d := digest(res)
					ob := &Obs{}
					msg := ""
					if d != want[s] {
						msg = "concurrent analysis gives another result: " + diffLine(d, want[s])
					}
					mu.Lock()
					o.count("concurrent_analyses", 1)
					mu.Unlock()
					switch j % 4 {
					case 0:
						queryAll(res, NewRng(c.Seed+uint64(j)), s, ob)
					case 1:
						if x := simulate(s); x != sim[s] {
							msg = "concurrent simulation gives another state: " + diffLine(x, sim[s])
						}
						mu.Lock()
						o.count("simulations", 1)
						mu.Unlock()
					case 2:
						if n := serveOnce(s); n != 6 {
							msg = fmt.Sprintf("a server among others answered %d of 6 requests", n)
						}
						mu.Lock()
						o.count("servers", 1)
						mu.Unlock()
					case 3:
						if n := debugOnce(); n != 2 {
							msg = fmt.Sprintf("a debug adapter among others answered %d of 2 requests", n)
						}
						_ = res.Listing.Optimize()
						_ = res.Listing.String()
						_ = res.Listing.Lint()
					}
					if msg != "" {
						mu.Lock()
						o.bad("%s", msg)
						mu.Unlock()
					}
				}(j)
			}
			close(start)
			wg.Wait()
			o.nontrivial = len(a.Srcs) > 1
		},
		Finish: func() (out []string) {
			for s, d := range canary {
				if x := digest(teal.Process(s)); x != d {
					out = append(out, fmt.Sprintf("at the end of the run %q gives another result: %s", s, diffLine(x, d)))
					if len(out) == 3 {
						return
					}
				}
			}
			return
		},
		Assume: []string{"the race detector reports races between accesses that were executed"},
	})
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %.300q vs %.300q", i, p, q)
		}
	}
	return "no difference"
}
