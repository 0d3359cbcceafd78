package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/dragmz/teal"
)

// Checks of the simulator: V01..V05.

type vmArgs struct {
	Sched  uint64 `json:"sched"`  // seed of the schedule
	Switch int    `json:"switch"` // chance (of 100) to switch branches before a step
	Budget int    `json:"budget,omitempty"`
	Bps    []int  `json:"bps,omitempty"`
	Long   bool   `json:"long,omitempty"` // a long run: more steps and branches before giving up
}

func (a vmArgs) limits() (steps, branches int) {
	if a.Long {
		return 12000, 600
	}
	return vmMaxSteps, vmMaxBranches
}

var vmUniq = []string{"i", "b", "a"}

// pushOf returns lines that push one value of type t, telling values apart.
func pushOf(r *Rng, t byte, n int) []string {
	switch t {
	case 'i':
		switch r.N(6) {
		case 0:
			return []string{fmt.Sprintf("pushint %d", n)}
		case 1:
			return []string{pick(r, []string{"txn Fee", "global Round", "intc 1", "intc_0", "global LatestTimestamp"})}
		default:
			return []string{fmt.Sprintf("int %d", n)}
		}
	case 'b':
		switch r.N(6) {
		case 0:
			return []string{fmt.Sprintf("pushbytes 0x%04x", n&0xffff)}
		case 1:
			return []string{pick(r, []string{"txn Sender", "global ZeroAddress", "bytec_2", "txna ApplicationArgs 0"})}
		case 2:
			return []string{fmt.Sprintf("method \"m%d()void\"", n)}
		default:
			return []string{fmt.Sprintf("byte \"v%d%s\"", n, strings.Repeat("x", r.N(40)))}
		}
	}
	switch r.N(3) {
	case 0:
		return []string{fmt.Sprintf("gload 0 %d", n%256)}
	default:
		s := n % 256
		l := pushOf(r, pick(r, []byte("ib")), n)
		return append(l, fmt.Sprintf("store %d", s), fmt.Sprintf("load %d", s))
	}
}

var vmControl = map[string]bool{"b": true, "bz": true, "bnz": true, "switch": true, "match": true, "callsub": true, "retsub": true, "return": true, "err": true, "proto": true, "frame_dig": true, "frame_bury": true}

// straight builds a straight-line program by running the model along.
type straight struct {
	r     *Rng
	lines []string
	m     *mProg
	s     *mState
	n     int
	ver   uint64
	over  bool
}

func newStraight(r *Rng, ver uint64) *straight {
	st := &straight{r: r, ver: ver}
	st.m = newModel(&rProg{Version: ver})
	st.s = &mState{Budget: 1 << 30, Scratch: map[int]mVal{}}
	return st
}

func instOf(line string, ver uint64) (rInst, bool) {
	p := refAnalyse(fmt.Sprintf("#pragma version %d\n%s", ver, line))
	if len(p.Lines) != 2 || p.Lines[1].Err || p.Lines[1].Syntax {
		return rInst{}, false
	}
	return p.Lines[1].Inst, true
}

// try says whether the line would execute now.
func (st *straight) try(line string) string {
	in, ok := instOf(line, st.ver)
	if !ok {
		return "bad"
	}
	st.m.p.Lines = append(st.m.p.Lines, rLine{Inst: in}, rLine{Inst: rInst{Mnem: "dup"}})
	st.s.Line = len(st.m.p.Lines) - 2
	out := st.m.step(st.s)
	st.m.p.Lines = st.m.p.Lines[:len(st.m.p.Lines)-2]
	if out.DontCare {
		return "skip"
	}
	if out.Error != "" {
		return "error"
	}
	return ""
}

func (st *straight) add(line string) bool {
	in, ok := instOf(line, st.ver)
	if !ok {
		return false
	}
	st.m.p.Lines = append(st.m.p.Lines, rLine{Inst: in})
	st.lines = append(st.lines, line)
	st.s.Line = len(st.m.p.Lines) - 1
	out := st.m.step(st.s)
	if out.Next == nil {
		st.over = true
		return false
	}
	st.s = out.Next
	st.s.Budget = 1 << 30
	st.s.Trace = nil
	return true
}

func (st *straight) push(t byte) {
	st.n++
	for _, l := range pushOf(st.r, t, 1000+st.n) {
		st.add(l)
	}
}

func (st *straight) op(name string, wrong bool) {
	r := st.r
	op := refOps[name]
	if op.Special && op.Args != nil && len(op.Args) == 1 && op.Args[0].Kind == "u8" || name == "dup" || name == "dup2" || name == "swap" || name == "loads" || name == "stores" {
		// stack shuffles: an operand around the present depth
		d := len(st.s.Stack)
		for k := 0; k < 8; k++ {
			line := name
			if len(op.Args) == 1 {
				v := r.N(d + 2)
				switch name {
				case "load", "store":
					v = pick(r, []int{0, 1, 2, 255, r.N(256)})
				case "dupn":
					v = pick(r, []int{0, 1, 2, 3, 7})
				case "bury":
					v = r.Rg(0, d+1)
				}
				if v > 255 {
					v = 255
				}
				line = fmt.Sprintf("%s %d", name, v)
			}
			res := st.try(line)
			if wrong == (res == "error") && res != "skip" {
				st.add(line)
				return
			}
			if !wrong {
				if name == "loads" || name == "stores" {
					st.n++
					st.add(fmt.Sprintf("%s %d", pick(r, []string{"int", "int", "int", "pushint"}), pick(r, []int{0, 1, 2, 255, r.N(256)})))
					if name == "stores" {
						st.push(pick(r, []byte("iba")))
					}
				} else {
					st.push(pick(r, []byte("iba")))
				}
				d = len(st.s.Stack)
			} else if d > 0 && r.P(1, 2) {
				st.add("pop")
				d = len(st.s.Stack)
			}
		}
		return
	}
	oo := opndOpts{version: st.ver, labels: []string{"a"}, byNum: true}
	var line string
	var in rInst
	for k := 0; k < 20; k++ {
		l := strings.TrimSpace(opLine(r, op, oo, false))
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l, `"`) && !strings.Contains(l, "b64") && !strings.Contains(l, "base64") {
			l = strings.TrimSpace(l[:i])
		}
		x, ok := instOf(l, st.ver)
		if ok {
			line, in = l, x
			break
		}
	}
	if line == "" {
		return
	}
	rop := refOps[in.Mnem]
	if !rop.Special {
		pops := []byte(rop.Pops)
		bad := -1
		if wrong && len(pops) > 0 {
			bad = r.N(len(pops))
			if r.P(1, 4) {
				pops = pops[1:]
				bad = -1
				for len(st.s.Stack) > 0 { // make the stack too short
					st.add("pop")
				}
			}
		}
		need := false
		for k := range pops { // does the stack fit already?
			if len(st.s.Stack) < len(pops) || !typOK(pops[len(pops)-1-k], st.s.Stack[len(st.s.Stack)-1-k].T) {
				need = true
			}
		}
		if need || wrong || r.P(1, 2) {
			for k, t := range pops {
				if t == 'F' {
					t = pick(r, []byte("ib"))
					for a := range op.Args {
						if f, ok := refFieldByNum[op.Args[a].Kind]; ok {
							if ff, ok := f[int(in.Nums[op.Args[a].GoField])]; ok && ff.Type != '-' {
								t = ff.Type
							}
						}
					}
				}
				if k == bad && t != 'a' {
					t = map[byte]byte{'i': 'b', 'b': 'i'}[t]
				} else if t == 'a' || r.P(1, 5) {
					if t == 'a' {
						t = pick(r, []byte("iba"))
					} else {
						t = 'a'
					}
				}
				st.push(t)
			}
		}
	}
	switch st.try(line) {
	case "error":
		if !wrong {
			return
		}
	case "skip", "bad":
		return
	}
	st.add(line)
}

var straightOps []string

func loadStraightOps() {
	for _, n := range refOpNames {
		if !vmControl[n] {
			straightOps = append(straightOps, n)
		}
	}
}

func verHeader(v uint64) string {
	return fmt.Sprintf("#pragma version %d\n", v)
}

// ---- programs with control flow

type flow struct {
	r     *Rng
	out   []string
	n     int
	lab   int
	subs  int
	depth int
	costy bool
	miss  bool
	proto []([2]int) // declared counts of each subroutine, {-1,-1} without
}

func (f *flow) w(s string) { f.out = append(f.out, s) }

func (f *flow) uniq() int { f.n++; return f.n }

var costlyFrags = [][]string{
	{`byte "q"`, "sha3_256", "pop"},
	{`byte "q"`, "keccak256", "pop"},
	{`byte "q"`, "sha256", "pop"},
	{`byte "q"`, "sha512_256", "pop"},
	{`byte "q"`, "bsqrt", "pop"},
	{`byte "q"`, `byte "r"`, "b*", "pop"},
	{`byte "q"`, `byte "r"`, "b%", "pop"},
	{`byte "q"`, `byte "r"`, "b+", "pop"},
	{`byte "q"`, "b~", "pop"},
	{`byte "q"`, `byte "r"`, "b|", "pop"},
	{"int 4", "sqrt", "pop"},
	{"int 4", "int 3", "expw", "popn 2"},
	{"int 1", "int 2", "int 3", "int 4", "divmodw", "popn 4"},
	{`byte "q"`, "ecdsa_pk_decompress Secp256k1", "popn 2"},
	{`byte "q"`, "ecdsa_pk_decompress Secp256r1", "popn 2"},
	{`byte "a"`, `byte "b"`, "ec_add BN254g1", "pop"},
	{`byte "a"`, `byte "b"`, "ec_add BLS12_381g2", "pop"},
	{`byte "a"`, `byte "b"`, "ec_scalar_mul BLS12_381g1", "pop"},
	{`byte "a"`, "ec_map_to BN254g2", "pop"},
	{`byte "a"`, "ec_subgroup_check BLS12_381g2", "pop"},
	{`byte "a"`, `byte "b"`, "ec_multi_exp BN254g1", "pop"},
	{`byte "a"`, `byte "b"`, `byte "c"`, "ed25519verify", "pop"},
	{`byte "a"`, `byte "b"`, `byte "c"`, "vrf_verify VrfAlgorand", "popn 2"},
	{`byte "aGVsbG8gd29ybGQsIGhlbGxvIHdvcmxk"`, "base64_decode StdEncoding", "pop"},
	{`byte "{\"k\": 12, \"j\": 13}"`, `byte "k"`, "json_ref JSONUint64", "pop"},
}

// frag writes a stack-neutral fragment (or one that only leaves values behind).
func (f *flow) frag(labels []string, callees []int, inSub bool) {
	r := f.r
	tgt := func() string {
		if f.miss && r.P(1, 30) {
			return "nowhere"
		}
		return pick(r, labels)
	}
	k := r.N(20)
	switch {
	case k < 3:
		f.w(fmt.Sprintf("int %d", f.uniq()))
		f.w(pick(r, []string{"pop", "assert", "store 1", fmt.Sprintf("store %d", pick(r, someSlots)), "dup\npop\npop", "int 7\n+\npop"}))
	case k < 4:
		f.w(fmt.Sprintf("load %d", pick(r, someSlots)))
		f.w("pop")
	case k < 5:
		f.w(fmt.Sprintf("byte \"s%d\"", f.uniq()))
		f.w(pick(r, []string{"pop", fmt.Sprintf("store %d", pick(r, someSlots)), "len\npop", "log"}))
	case k < 6 || (f.costy && k < 10):
		f.out = append(f.out, pick(r, costlyFrags[:14])...)
		if f.costy && r.P(1, 4) {
			f.out = append(f.out, pick(r, costlyFrags)...)
		}
	case k < 10:
		f.w(fmt.Sprintf("int %d", f.uniq()))
		f.w(pick(r, []string{"bz ", "bnz "}) + tgt())
	case k < 11:
		f.w("b " + tgt())
	case k < 13:
		n := r.N(4)
		if r.P(1, 25) {
			n = r.Rg(5, 40)
		}
		if r.P(1, 2) {
			f.w(fmt.Sprintf("int %d", f.uniq()))
			l := "switch"
			for i := 0; i < n; i++ {
				l += " " + tgt()
			}
			f.w(l)
		} else {
			l := "match"
			for i := 0; i <= n; i++ {
				f.w(fmt.Sprintf("int %d", f.uniq()))
				if i < n {
					l += " " + tgt()
				}
			}
			f.w(l)
		}
	case k < 16 && len(callees) > 0:
		f.call(pick(r, callees), true)
	case k < 17:
		if inSub {
			f.w("retsub")
		} else {
			f.w("int 1")
			f.w("return")
		}
	case k < 18:
		if r.P(1, 4) {
			f.w("err")
		} else {
			f.w(fmt.Sprintf("int %d", f.uniq()))
		}
	default:
		f.w(pick(r, []string{"// note", "", "txn Fee\npop", "int 3\nstore 5\nload 5\npop"}))
	}
}

// call pushes the arguments, calls and drops the results when asked.
func (f *flow) call(sub int, drop bool) {
	p := f.proto[sub]
	n := p[0]
	if n > 0 && f.r.P(1, 8) {
		n -= 1 + f.r.N(n) // too few, unless the stack holds more
	}
	for i := 0; i < n; i++ {
		f.w(fmt.Sprintf("int %d", f.uniq()))
	}
	f.w(fmt.Sprintf("callsub s%d", sub))
	if drop {
		for i := 0; i < p[1]; i++ {
			f.w("pop")
		}
	}
}

// genFlow: a program of branches, jumps, multi-way branches and subroutines.
func genFlow(r *Rng, size int, costy bool) string {
	f := &flow{r: r, costy: costy, miss: r.P(1, 4)}
	ns := r.N(4)
	for i := 0; i < ns; i++ {
		if r.P(1, 2) {
			f.proto = append(f.proto, [2]int{-1, -1})
		} else {
			f.proto = append(f.proto, [2]int{r.N(4), r.N(3)})
		}
	}
	all := []int{}
	for i := 0; i < ns; i++ {
		all = append(all, i)
	}
	nl := r.Rg(1, 4)
	var labels []string
	for i := 0; i < nl; i++ {
		labels = append(labels, fmt.Sprintf("m%d", i))
	}
	part := func(labels []string, callees []int, n int, inSub bool) {
		at := map[int][]string{}
		for _, l := range labels {
			k := r.N(n + 1)
			if r.P(2, 3) { // mostly forward
				k = n - r.N(n/2+1)
			}
			at[k] = append(at[k], l)
		}
		for i := 0; i <= n; i++ {
			for _, l := range at[i] {
				f.w(l + ":")
			}
			if i < n {
				f.frag(labels, callees, inSub)
			}
		}
	}
	part(labels, all, size, false)
	if r.P(4, 5) {
		f.w("int 1")
		f.w("return")
	}
	for i := 0; i < ns; i++ {
		f.sub(i, ns, 1+r.N(size/2+1), part)
	}
	v := uint64(9)
	if r.P(1, 6) {
		v = 8
	}
	return verHeader(v) + strings.Join(f.out, "\n") + pick(r, []string{"", "\n"})
}

func (f *flow) sub(i, ns, n int, part func([]string, []int, int, bool)) {
	r := f.r
	f.w(fmt.Sprintf("s%d:", i))
	p := f.proto[i]
	var callees []int
	for k := i + 1; k < ns; k++ {
		callees = append(callees, k)
	}
	if r.P(1, 8) {
		callees = append(callees, i) // recursion
	}
	if p[0] < 0 {
		part([]string{fmt.Sprintf("s%d_a", i), fmt.Sprintf("s%d_b", i)}, callees, n, true)
		f.w("retsub")
		return
	}
	f.w(fmt.Sprintf("proto %d %d", p[0], p[1]))
	loc := 0
	if r.P(1, 12) {
		loc = -1 // one result too few at the end
	}
	for k := 0; k < n; k++ {
		switch r.N(9) {
		case 0, 1:
			f.w(fmt.Sprintf("int %d", f.uniq()))
			loc++
		case 2, 3:
			lo, hi := -p[0], loc-1
			if hi >= lo {
				f.w(fmt.Sprintf("frame_dig %d", r.Rg(lo, hi)))
				loc++
			}
		case 4, 5:
			lo, hi := -p[0], loc-1
			if hi >= lo {
				f.w(pick(r, []string{fmt.Sprintf("int %d", f.uniq()), fmt.Sprintf("byte \"f%d\"", f.uniq())}))
				f.w(fmt.Sprintf("frame_bury %d", r.Rg(lo, hi)))
			}
		case 6:
			l := fmt.Sprintf("s%d_%d", i, k)
			f.w(fmt.Sprintf("int %d", f.uniq()))
			f.w(pick(r, []string{"bz ", "bnz "}) + l)
			if r.P(1, 2) {
				f.w("txn Fee\npop")
			}
			if r.P(1, 5) {
				f.w("int 1\nreturn")
			}
			f.w(l + ":")
		case 7:
			if len(callees) > 0 {
				c := pick(r, callees)
				if c == i && r.P(3, 4) {
					break
				}
				f.call(c, false)
				if f.proto[c][1] > 0 {
					loc += f.proto[c][1]
				}
			}
		case 8:
			f.out = append(f.out, pick(r, costlyFrags[:13])...)
		}
	}
	for loc < p[1] {
		f.w(fmt.Sprintf("int %d", f.uniq()))
		loc++
	}
	f.w("retsub")
}

const (
	vmMaxSteps    = 2500
	vmMaxBranches = 300
)

// drive runs a program step by step under the schedule of the case.
func (mo *vmMonitor) drive(a vmArgs) {
	r := NewRng(a.Sched)
	maxSteps, maxBranches := a.limits()
	for mo.ended == "" && !mo.dead {
		if mo.steps > maxSteps || len(mo.vm.Branches) > maxBranches {
			mo.ended = "abandoned"
			mo.o.count("abandoned", 1)
			break
		}
		want := -1
		live := mo.live()
		if len(live) > 0 && r.N(100) < a.Switch {
			want = pick(r, live)
			if r.P(1, 12) { // to one that has ended: some other moves
				id := pick(r, mo.order)
				if mo.st[id].Line < 0 {
					want = -1
				} else {
					want = id
				}
				mo.vm.Switch(id)
			} else {
				mo.vm.Switch(want)
			}
			mo.o.count("switches", 1)
			if want >= 0 && (mo.vm.Branch == nil || mo.vm.Branch.Id != want) {
				mo.fault("sched", "after switching to branch %d the current branch is another", want)
				return
			}
		}
		mo.step(want)
	}
	mo.final()
}

func endState(vm *teal.Vm) []string {
	var out []string
	memo := map[teal.Op]string{}
	canonOp := func(op teal.Op) string {
		s, ok := memo[op]
		if !ok {
			s = canonOp(op)
			memo[op] = s
		}
		return s
	}
	for _, b := range vm.Branches {
		var sb strings.Builder
		for _, op := range b.Trace {
			sb.WriteString(canonOp(op) + "\n")
		}
		fmt.Fprintf(&sb, "budget %d stack %v", b.Budget, b.Stack.Items)
		out = append(out, sb.String())
	}
	sort.Strings(out)
	return out
}

func flowCase(r *Rng, costy bool, max int) *Case {
	return &Case{Src: []byte(unusual(r, genFlow(r, r.Rg(1, max), costy))), Args: mkArgs(vmArgs{Sched: r.U64(), Switch: pick(r, []int{0, 20, 60, 100})})}
}

var genLabelRe = regexp.MustCompile(`\b(m\d+|s\d+(_\w+)?|k\d+|nowhere)\b`)
var alikeNames = []string{"l", "L", "l1", "L1", "loop", "Loop", "LOOP", "loo", "loop1", "loop_1", "l_", "_l", "lo", "int", "pop", "0", "00", "1", "01", "-1"}

// unusual now and then gives a program label names that resemble one another
// or a long stretch of lines with nothing to execute.
func unusual(r *Rng, src string) string {
	if r.P(1, 6) {
		names := map[string]string{}
		perm := append([]string{}, alikeNames...)
		for i := range perm {
			j := r.Rg(i, len(perm)-1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		src = genLabelRe.ReplaceAllStringFunc(src, func(l string) string {
			if names[l] == "" {
				if len(names) >= len(perm) {
					names[l] = l
				} else {
					names[l] = perm[len(names)]
				}
			}
			return names[l]
		})
	}
	if r.P(1, 12) {
		ls := strings.Split(src, "\n")
		at := r.Rg(1, len(ls))
		var gap []string
		for k := pick(r, []int{5, 40, 70, 130, 260, 520}); k > 0; k-- {
			gap = append(gap, pick(r, []string{"", "", "// c", "\t", fmt.Sprintf("gap%d:", k)}))
		}
		ls = append(ls[:at:at], append(gap, ls[at:]...)...)
		src = strings.Join(ls, "\n")
	}
	return src
}

var someSlots = []int{0, 0, 1, 1, 2, 2, 5, 127, 128, 200, 254, 255}

func anySlot(r *Rng) int {
	if r.P(1, 3) {
		return r.N(256)
	}
	return pick(r, someSlots)
}

// genLong: runs that go on for thousands of steps, on many branches, on deep
// stacks, in deep recursion or over many lines, with all of the scratch space.
func genLong(r *Rng) string {
	var ls []string
	w := func(f string, a ...interface{}) { ls = append(ls, fmt.Sprintf(f, a...)) }
	n := 0
	val := func() {
		n++
		if r.P(1, 3) {
			w("byte \"v%d\"", n)
		} else {
			w("int %d", n)
		}
	}
	fill := func(k int) {
		for ; k > 0; k-- {
			val()
			if r.P(1, 2) {
				w("store %d", anySlot(r))
			}
		}
	}
	body := func(k int) {
		for ; k > 0; k-- {
			switch r.N(7) {
			case 0:
				val()
				w("pop")
			case 1:
				w("load %d\npop", anySlot(r))
			case 2:
				val()
				w("store %d", anySlot(r))
			case 3:
				ls = append(ls, pick(r, costlyFrags[:6])...)
			case 4:
				w("txn Fee\npop")
			case 5:
				w("// note %d", n)
			default:
				w("int 1\nint 2\n+\npop")
			}
		}
	}
	switch r.N(6) {
	case 0, 1: // a fan of loops, each to the end of its budget
		fill(pick(r, []int{0, 3, 12}))
		k := r.Rg(6, 12)
		w("int %d", n)
		l := "switch"
		for i := 0; i < k; i++ {
			l += fmt.Sprintf(" l%d", i)
		}
		w("%s", l)
		if r.P(1, 2) {
			w("int 1\nreturn")
		}
		for i := 0; i < k; i++ {
			w("l%d:", i)
			body(r.N(4))
			if r.P(3, 4) {
				w("b l%d", i)
			} else {
				w("int 1\nreturn")
			}
		}
	case 2: // a deep stack and what reaches far into it
		fill(r.Rg(100, 600))
		if r.P(1, 3) {
			val()
			for k := r.Rg(1, 5); k > 0; k-- {
				w("dupn %d", pick(r, []int{255, 255, 200, 17}))
			}
		}
		body(3)
		w("int 0\nbz e")
		fill(r.N(30))
		w("e:")
		body(2)
	case 3: // recursion to the end of the budget
		if r.P(1, 2) {
			w("int 1\ncallsub f\nreturn\nf:\nproto 1 1")
			body(r.N(3))
			w("frame_dig -1")
			w("bz base")
			w("frame_dig -1\nint 1\n-\ncallsub f\nretsub\nbase:\nint 1\nretsub")
		} else {
			fill(r.N(5))
			w("f:")
			body(r.N(3))
			w("callsub f")
		}
	case 4: // a long straight line with forks: all paths to the end
		k := r.Rg(2, 6)
		for i := 0; i < k; i++ {
			body(r.Rg(5, 20))
			w("int 1\n%s x%d", pick(r, []string{"bz", "bnz"}), i)
			fill(r.N(4))
			w("x%d:", i)
		}
		w("int 1\nreturn")
	default: // wide: very many branches
		k := r.Rg(40, 250)
		op := "switch"
		if r.P(1, 3) {
			k = r.Rg(30, 90)
			op = "match"
			for i := 0; i < k; i++ {
				val()
			}
		}
		val()
		t := r.Rg(1, 5)
		for i := 0; i < k; i++ {
			op += fmt.Sprintf(" w%d", r.N(t))
		}
		w("%s", op)
		for i := 0; i < t; i++ {
			body(1)
			w("w%d:", i)
		}
		body(2)
		w("int 1\nreturn")
	}
	return verHeader(8) + strings.Join(ls, "\n") + pick(r, []string{"", "\n"})
}

func longCase(r *Rng, sw []int) *Case {
	return &Case{Src: []byte(genLong(r)), Args: mkArgs(vmArgs{Sched: r.U64(), Switch: pick(r, sw), Long: true})}
}

// genCalls: subroutines first and foremost.
func genCalls(r *Rng) string {
	f := &flow{r: r}
	ns := r.Rg(1, 4)
	for i := 0; i < ns; i++ {
		if r.P(1, 5) {
			f.proto = append(f.proto, [2]int{-1, -1})
		} else {
			f.proto = append(f.proto, [2]int{r.N(5), r.N(4)})
		}
	}
	noPart := func(labels []string, callees []int, n int, inSub bool) {
		for i := 0; i < n; i++ {
			switch r.N(5) {
			case 0:
				f.w(fmt.Sprintf("int %d", f.uniq()))
			case 1:
				if len(callees) > 0 {
					f.call(pick(r, callees), r.P(1, 2))
				}
			case 2:
				f.w("int 1\nbz " + labels[0] + fmt.Sprint(i))
				if r.P(1, 2) {
					f.w("retsub")
				}
				f.w(labels[0] + fmt.Sprint(i) + ":")
			case 3:
				f.w("dup\npop")
			default:
				f.out = append(f.out, pick(r, costlyFrags[:6])...)
			}
		}
	}
	for i := r.N(4); i > 0; i-- {
		f.w(fmt.Sprintf("int %d", f.uniq()))
	}
	for i := r.Rg(1, 4); i > 0; i-- {
		f.call(r.N(ns), r.P(1, 3))
		if r.P(1, 5) {
			f.w(fmt.Sprintf("int 1\nbnz k%d\ntxn Fee\npop\nk%d:", i, i))
		}
	}
	if r.P(1, 10) {
		f.w("frame_dig 0")
	}
	f.w("int 1")
	f.w("return")
	for i := 0; i < ns; i++ {
		f.sub(i, ns, r.Rg(1, 9), noPart)
	}
	return verHeader(8) + strings.Join(f.out, "\n") + "\n"
}

// eachOp is a short straight program around the i-th instruction.
func eachOp(r *Rng, i int) *Case {
	st := newStraight(r, 9)
	for k := pick(r, []int{0, 0, 1, 2, 4, 9}); k > 0; k-- {
		st.push(pick(r, []byte("iba")))
	}
	st.op(straightOps[i%len(straightOps)], i/len(straightOps)%3 == 2)
	if !st.over {
		st.op(pick(r, straightOps), r.P(1, 4))
	}
	return &Case{Src: []byte(verHeader(pick(r, []uint64{9, 9, 9, 9, 9, 1, 5})) + strings.Join(st.lines, "\n")), Args: mkArgs(vmArgs{Budget: 1 << 20})}
}

func init() {
	register(&Check{
		ID:   "V01",
		Rule: "every opcode with acceptable and unacceptable operands on typed stacks built to fit it, to be too short or to hold a wrong type, and long random instruction sequences; each Step is compared with an independent machine (types, order, untouched rest, copied values, scratch). Non-trivial: at least one instruction that pops was stepped; distinct by program.",
		Gens: []GenSpec{
			{Name: "each-op", Quick: 12000, Thorough: 150000, Make: eachOp},
			{Name: "sequences", Quick: 2500, Thorough: 60000, Make: func(r *Rng, i int) *Case {
				st := newStraight(r, uint64(r.Rg(8, 9)))
				for k := r.Rg(3, 25); k > 0 && !st.over; k-- {
					st.op(pick(r, straightOps), k == 1 && r.P(1, 3))
				}
				return &Case{Src: []byte(verHeader(st.ver) + strings.Join(st.lines, "\n")), Args: mkArgs(vmArgs{Budget: 1 << 20})}
			}},
			{Name: "shuffles", Quick: 2500, Thorough: 60000, Make: func(r *Rng, i int) *Case {
				st := newStraight(r, 8)
				for k := pick(r, []int{1, 3, 8, 40, 300}); k > 0; k-- {
					st.push(pick(r, []byte("iib")))
				}
				for k := r.Rg(1, 20); k > 0 && !st.over; k-- {
					st.op(pick(r, []string{"dig", "bury", "cover", "uncover", "popn", "dupn", "dup", "dup2", "swap", "load", "store", "loads", "stores", "select", "pop"}), k == 1 && r.P(1, 2))
				}
				return &Case{Src: []byte(verHeader(8) + strings.Join(st.lines, "\n")), Args: mkArgs(vmArgs{Budget: 1 << 20})}
			}},
			{Name: "flow", Quick: 1500, Thorough: 40000, Make: func(r *Rng, i int) *Case { return flowCase(r, false, 14) }},
			{Name: "long", Quick: 60, Thorough: 1500, Make: func(r *Rng, i int) *Case { return longCase(r, []int{0, 10}) }},
		},
		Require: []string{"steps", "errors"},
		Run: func(c *Case, o *Obs) {
			var a vmArgs
			c.args(&a)
			mo := newMonitor(string(c.Src), o, "stack", "scratch", "error", "call-stack", "call-error", "fork-stack")
			if mo == nil {
				return
			}
			if a.Budget > 0 && len(mo.vm.Branches) > 0 {
				mo.vm.Branches[0].Budget = a.Budget
				mo.st[mo.vm.Branches[0].Id].Budget = a.Budget
			}
			mo.drive(a)
			for _, s := range mo.st {
				for _, l := range s.Trace {
					in := mo.m.p.Lines[l].Inst
					o.seen(in.Mnem)
					if rop := refOps[in.Mnem]; rop != nil && (rop.Special || rop.Pops != "") {
						o.nontrivial = true
					}
				}
			}
		},
		Assume: []string{"instruction effects as in harness/ref/ops.txt, frozen from the instruction set's documentation", "one generator raises the branch's budget field so that instructions dearer than 700 can be observed"},
	})

	register(&Check{
		ID:   "V02",
		Rule: "programs over labels, jumps, bz/bnz, switch/match, subroutine calls and terminators, stepped under random schedules of branch switches; after every step the moved branch and all new branches are compared with the model and every other branch must be unchanged; a second machine is run to the end and must produce the same set of paths. Non-trivial: the program forked; distinct by program and schedule.",
		Gens: []GenSpec{
			{Name: "flow", Quick: 5000, Thorough: 120000, Make: func(r *Rng, i int) *Case { return flowCase(r, r.P(1, 3), 12) }},
			{Name: "each-op", Quick: 2500, Thorough: 60000, Make: eachOp},
			{Name: "large", Quick: 200, Thorough: 6000, Make: func(r *Rng, i int) *Case { return flowCase(r, true, 45) }},
			{Name: "long", Quick: 120, Thorough: 4000, Make: func(r *Rng, i int) *Case { return longCase(r, []int{0, 1, 5, 60}) }},
			{Name: "calls", Quick: 1500, Thorough: 30000, Make: func(r *Rng, i int) *Case {
				return &Case{Src: []byte(genCalls(r)), Args: mkArgs(vmArgs{Sched: r.U64(), Switch: pick(r, []int{0, 30, 100})})}
			}},
		},
		Require: []string{"forks", "isolation_checks", "runs_compared", "switches"},
		Run: func(c *Case, o *Obs) {
			var a vmArgs
			c.args(&a)
			mo := newMonitor(string(c.Src), o, "line", "fork", "fork-line", "fork-budget", "fork-stack", "fork-frames", "fork-trace", "fork-scratch",
				"other-line", "other-budget", "other-stack", "other-frames", "other-trace", "other-scratch", "trace", "call-line", "call-trace", "sched", "start-line")
			if mo == nil {
				return
			}
			if a.Budget > 0 && len(mo.vm.Branches) > 0 {
				mo.vm.Branches[0].Budget = a.Budget
				mo.st[mo.vm.Branches[0].Id].Budget = a.Budget
			}
			mo.drive(a)
			o.nontrivial = len(mo.vm.Branches) > 1
			if mo.dead || mo.ended == "abandoned" {
				return
			}
			vm := teal.NewVm(teal.Process(string(c.Src)))
			if a.Budget > 0 && len(vm.Branches) > 0 {
				vm.Branches[0].Budget = a.Budget
			}
			vm.Run()
			o.count("runs_compared", 1)
			if mo.ended == "error" {
				if vm.Error == nil {
					o.bad("a path of the program fails when stepped, yet a run to the end reports no error")
				}
				return
			}
			if vm.Error != nil {
				o.bad("no path of the program fails when stepped, yet a run reports %v", vm.Error)
				return
			}
			for _, b := range vm.Branches {
				if mo.alive(b) {
					o.bad("after a run branch %d is still at line %d", b.Id, b.Line)
				}
			}
			x, y := endState(vm), endState(mo.vm)
			if len(x) != len(y) {
				o.bad("a run explored %d paths, stepping explored %d", len(x), len(y))
				return
			}
			o.count("paths", len(x))
			for i := range x {
				if x[i] != y[i] {
					o.bad("a run explored another path than stepping:\n%s\n-- stepping:\n%s", x[i], y[i])
					return
				}
			}
		},
		Assume: []string{"programs with more than 300 branches or 2500 steps (600 and 12000 in the generator of long runs) are monitored up to that point only"},
	})

	register(&Check{
		ID:   "V03",
		Rule: "programs with costly opcodes, in loops, branches and subroutines, and each opcode alone at versions 1..9; every step's charge is compared with the cost table and the end of the budget with the model. Non-trivial: some branch ran out of budget or a charge other than 1 was observed; distinct by program.",
		Gens: []GenSpec{
			{Name: "each-op", Quick: 4000, Thorough: 50000, Make: func(r *Rng, i int) *Case {
				ver := uint64(pick(r, []int{1, 1, 2, 5, 7, 8, 9}))
				st := newStraight(r, 9)
				st.op(straightOps[i%len(straightOps)], false)
				for k := r.N(3); k > 0 && !st.over; k-- {
					st.op(straightOps[i%len(straightOps)], false)
				}
				h := verHeader(ver)
				if ver == 1 && r.P(1, 2) {
					h = ""
				}
				return &Case{Src: []byte(h + strings.Join(st.lines, "\n")), Args: mkArgs(vmArgs{Budget: pick(r, []int{0, 0, 1 << 20})})}
			}},
			{Name: "edge", Quick: 2500, Thorough: 60000, Make: func(r *Rng, i int) *Case {
				// spend the budget down to just around the cost of the last fragment
				var ls []string
				target := 700 - pick(r, []int{1, 2, 4, 6, 7, 9, 10, 20, 26, 35, 40, 45, 130, 650, 100, 200}) - r.Rg(-3, 3) - 1
				n := target
				for n > 1 {
					switch {
					case n > 140 && r.P(1, 2):
						ls = append(ls, `byte "q"`, "sha3_256", "pop")
						n -= 132
					case n > 45:
						ls = append(ls, `byte "q"`, "bsqrt", "pop")
						n -= 42
					default:
						ls = append(ls, "int 1", "pop")
						n -= 2
					}
				}
				ls = append(ls, costlyFrags[i%len(costlyFrags)]...)
				ls = append(ls, "int 1", "return")
				return &Case{Src: []byte(verHeader(9) + strings.Join(ls, "\n")), Args: mkArgs(vmArgs{})}
			}},
			{Name: "loops", Quick: 600, Thorough: 10000, Make: func(r *Rng, i int) *Case {
				ls := []string{"top:"}
				for k := r.N(5); k > 0; k-- {
					ls = append(ls, pick(r, costlyFrags)...)
				}
				ls = append(ls, pick(r, []string{"b top", "callsub top", "int 1\nbz end\nb top\nend:\nerr", "b top\nerr", "switch\nb top"}))
				if strings.HasPrefix(ls[len(ls)-1], "switch") {
					ls = append(ls[:len(ls)-1], "int 1", ls[len(ls)-1])
				}
				h := verHeader(uint64(pick(r, []int{9, 8, 1})))
				return &Case{Src: []byte(h + strings.Join(ls, "\n")), Args: mkArgs(vmArgs{Sched: r.U64()})}
			}},
			{Name: "flow", Quick: 1500, Thorough: 40000, Make: func(r *Rng, i int) *Case { return flowCase(r, true, 14) }},
			{Name: "long", Quick: 60, Thorough: 1500, Make: func(r *Rng, i int) *Case { return longCase(r, []int{0, 10}) }},
		},
		Require: []string{"steps", "out_of_budget"},
		Run: func(c *Case, o *Obs) {
			var a vmArgs
			c.args(&a)
			mo := newMonitor(string(c.Src), o, "budget", "call-budget", "fork-budget", "other-budget", "start-budget")
			if mo == nil {
				return
			}
			if a.Budget > 0 && len(mo.vm.Branches) > 0 {
				mo.vm.Branches[0].Budget = a.Budget
				mo.st[mo.vm.Branches[0].Id].Budget = a.Budget
			} else {
				a.Budget = 700
			}
			mo.drive(a)
			for _, b := range mo.vm.Branches {
				if b.Budget < 0 {
					o.bad("branch %d has budget %d", b.Id, b.Budget)
				}
				if len(b.Trace) > a.Budget-b.Budget {
					o.bad("branch %d executed %d instructions for %d of budget", b.Id, len(b.Trace), a.Budget-b.Budget)
				}
				if len(b.Trace) < a.Budget-b.Budget {
					o.nontrivial = true
				}
			}
			if o.counts["out_of_budget"] > 0 {
				o.nontrivial = true
			}
		},
		Assume: []string{"costs as in harness/ref/ops.txt; where a cost depends on the length of a value that is not a constant, any charge of at least 1 is accepted"},
	})

	register(&Check{
		ID:   "V04",
		Rule: "programs with random breakpoint sets, changed and re-run in random order with steps and switches between; a twin machine without breakpoints is stepped to the first arrival at a breakpoint line and must be in the same state. Non-trivial: some run stopped at a breakpoint; distinct by program and command sequence.",
		Gens: []GenSpec{
			{Name: "flow", Quick: 5000, Thorough: 120000, Make: func(r *Rng, i int) *Case { return flowCase(r, r.P(1, 2), 12) }},
			{Name: "long", Quick: 150, Thorough: 4000, Make: func(r *Rng, i int) *Case { return longCase(r, []int{0, 20}) }},
			{Name: "calls", Quick: 1500, Thorough: 30000, Make: func(r *Rng, i int) *Case {
				return &Case{Src: []byte(genCalls(r)), Args: mkArgs(vmArgs{Sched: r.U64(), Switch: pick(r, []int{0, 30})})}
			}},
			{Name: "texts", Quick: 2000, Thorough: 40000, Make: func(r *Rng, i int) *Case {
				return &Case{Src: []byte(genAny(r)), Args: mkArgs(vmArgs{Sched: r.U64()})}
			}},
		},
		Require: []string{"stops", "run_to_end", "confirmations"},
		Run:     runBreakpoints,
	})

	register(&Check{
		ID:   "V05",
		Rule: "programs of nested, branching and recursive subroutines with and without declared counts, frame reads and writes of arguments and locals, and returns with enough or too few results, under random schedules; every step of a call, return, proto or frame instruction is compared with the model (line, frames, stack, error). Non-trivial: at least one call returned; distinct by program and schedule.",
		Gens: []GenSpec{
			{Name: "calls", Quick: 8000, Thorough: 200000, Make: func(r *Rng, i int) *Case {
				return &Case{Src: []byte(genCalls(r)), Args: mkArgs(vmArgs{Sched: r.U64(), Switch: pick(r, []int{0, 30, 100})})}
			}},
			{Name: "flow", Quick: 2500, Thorough: 50000, Make: func(r *Rng, i int) *Case { return flowCase(r, r.P(1, 3), 14) }},
			{Name: "long", Quick: 60, Thorough: 1500, Make: func(r *Rng, i int) *Case { return longCase(r, []int{0, 10}) }},
		},
		Require: []string{"steps", "returns", "frame_ops", "errors"},
		Run: func(c *Case, o *Obs) {
			var a vmArgs
			c.args(&a)
			mo := newMonitor(string(c.Src), o, "call-line", "call-stack", "call-frames", "call-error", "call-trace", "call-scratch", "fork-frames", "other-frames", "frames", "fork-line", "name")
			if mo == nil {
				return
			}
			mo.drive(a)
			for _, s := range mo.st {
				for _, l := range s.Trace {
					switch mo.m.p.Lines[l].Inst.Mnem {
					case "retsub":
						o.count("returns", 1)
						o.nontrivial = true
					case "frame_dig", "frame_bury":
						o.count("frame_ops", 1)
					}
				}
			}
		},
		Assume: []string{"nothing is claimed for a return outside any subroutine, a declaration that is not the subroutine's first instruction, or frame access below the declared arguments"},
	})
}

type brShot struct {
	line, budget, trace, stack, frames int
}

func shotBr(b *teal.VmBranch) brShot {
	return brShot{b.Line, b.Budget, len(b.Trace), len(b.Stack.Items), len(b.Frames)}
}

func runBreakpoints(c *Case, o *Obs) {
	var a vmArgs
	c.args(&a)
	src := string(c.Src)
	p := refAnalyse(src)
	res := teal.Process(src)
	if len(res.Listing) != len(p.Lines) {
		return
	}
	m := newModel(p)
	exec := map[int]bool{}
	for i := range p.Lines {
		if !p.Lines[i].Inst.nop() {
			exec[i] = true
		}
	}
	r := NewRng(a.Sched)
	maxSteps, maxBranches := 1500, 120
	if a.Long {
		maxSteps, maxBranches = a.limits()
	}
	vm, tw := teal.NewVm(res), teal.NewVm(teal.Process(src))
	bps := map[int]bool{}
	steps := 0
	// arrivals steps the twin once and tells which branches came to a breakpoint line
	arrivals := func() (map[int]int, bool) {
		before := map[int]brShot{}
		for _, b := range tw.Branches {
			before[b.Id] = shotBr(b)
		}
		tw.Step()
		steps++
		out := map[int]int{}
		for _, b := range tw.Branches {
			old, ok := before[b.Id]
			if ok && old == shotBr(b) {
				continue
			}
			ln := m.norm(b.Line)
			if ok && old.trace == len(b.Trace) {
				continue // only left its place: out of budget
			}
			if ln >= 0 && bps[ln] {
				out[b.Id] = ln
			}
		}
		return out, tw.Error == nil
	}
	same := func(when string) bool {
		if x, y := shot(vm), shot(tw); x != y {
			o.bad("%s: the machine differs from its twin:\n%s\n-- twin:\n%s", when, x, y)
			return false
		}
		return true
	}
	hist := ""
	for k := 0; k < 12; k++ {
		switch r.N(6) {
		case 0, 1:
			n := r.N(6)
			var ask []int
			bps = map[int]bool{}
			for i := 0; i < n; i++ {
				ln := r.Rg(-2, len(p.Lines)+2)
				if r.P(2, 3) && len(p.Lines) > 0 {
					ln = r.N(len(p.Lines))
				}
				ask = append(ask, ln)
			}
			want := map[int]bool{}
			for _, ln := range ask {
				if exec[ln] {
					want[ln] = true
					bps[ln] = true
				}
			}
			got := vm.SetBreakpoints(ask)
			o.count("confirmations", len(ask))
			for ln, v := range got {
				if v && !want[ln] {
					o.bad("breakpoint on line %d confirmed although it holds no instruction", ln)
				}
			}
			for ln := range want {
				if !got[ln] {
					o.bad("breakpoint on line %d not confirmed although it holds an instruction", ln)
				}
			}
			hist += fmt.Sprintf("B%v ", ask)
		case 2:
			arr, ok := arrivals()
			vm.Step()
			hist += "s "
			if ok && vm.Error == nil {
				if !checkTriggered(o, vm, arr, "after a step") {
					return
				}
			}
			if !same("after a step") || !ok {
				return
			}
		case 3:
			if len(tw.Branches) > 1 && r.N(100) < a.Switch+10 {
				id := pick(r, tw.Branches).Id
				tw.Switch(id)
				vm.Switch(id)
				hist += fmt.Sprintf("w%d ", id)
			}
		default:
			if tw.Branch == nil || tw.Error != nil {
				continue
			}
			// the expected stop, found on the twin first: a run may be very long
			var arr map[int]int
			ok := true
			for tw.Branch != nil && ok && len(arr) == 0 {
				if steps > maxSteps || len(tw.Branches) > maxBranches {
					o.count("abandoned", 1)
					return
				}
				arr, ok = arrivals()
			}
			vm.Run()
			hist += "r "
			if !same(fmt.Sprintf("after a run (%s) with breakpoints %v", hist, bps)) {
				return
			}
			if !ok {
				o.count("run_to_error", 1)
				return
			}
			if !checkTriggered(o, vm, arr, "after a run ("+hist+")") {
				return
			}
			if len(arr) > 0 {
				o.count("stops", 1)
				o.nontrivial = true
			} else {
				o.count("run_to_end", 1)
			}
		}
		if len(o.problems) > 0 {
			return
		}
	}
	o.seen(hist)
}

func checkTriggered(o *Obs, vm *teal.Vm, arr map[int]int, when string) bool {
	for id, ln := range arr {
		found := false
		for _, x := range vm.Triggered[id] {
			if x == ln {
				found = true
			}
		}
		if !found {
			o.bad("%s: branch %d arrived at breakpoint line %d, reported: %v", when, id, ln, vm.Triggered)
			return false
		}
	}
	for id, ls := range vm.Triggered {
		for _, l := range ls {
			if x, ok := arr[id]; !ok || x != l {
				o.bad("%s: branch %d reported at line %d, arrived: %v", when, id, l, arr)
				return false
			}
		}
	}
	return true
}
