package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

// The abstract machine the simulator is monitored against: one transition per
// executed instruction over typed stacks, call frames, scratch and budget. It
// knows nothing about scheduling: the monitor looks at which branch moved.

type mVal struct {
	T     byte   // 'a', 'i', 'b'
	S     string // the value as the simulator shows it ("" = not yet observed)
	Const bool   // an int constant
	U     uint64
	Len   int      // byte length when it is known, else -1
	Sub   string   // for a load: the text it has to describe
	Show  []string // for a constant: the notations of its value, one of which it has to show
}

type mFrame struct {
	Ret        int
	P          int
	Proto      bool
	Args, Ress int
	Name       string
}

type mState struct {
	Line    int // normalised: first executable line at or after, -1 when it ended
	Stack   []mVal
	Scratch map[int]mVal
	Frames  []mFrame
	Budget  int
	Trace   []int
	Name    string // the label passed last, within the present subroutine
}

func (s *mState) clone() *mState {
	n := *s
	n.Stack = append([]mVal{}, s.Stack...)
	n.Scratch = map[int]mVal{}
	for k, v := range s.Scratch {
		n.Scratch[k] = v
	}
	n.Frames = append([]mFrame{}, s.Frames...)
	n.Trace = append([]int{}, s.Trace...)
	return &n
}

type mProg struct {
	p    *rProg
	syms map[string]int
}

func newModel(p *rProg) *mProg {
	m := &mProg{p: p, syms: map[string]int{}}
	for i := range p.Lines {
		if in := &p.Lines[i].Inst; in.Mnem == "label" {
			m.syms[in.Text] = i
		}
	}
	return m
}

func (m *mProg) norm(line int) int {
	if line < 0 {
		return -1
	}
	for line < len(m.p.Lines) {
		if !m.p.Lines[line].Inst.nop() {
			return line
		}
		line++
	}
	return -1
}

func (m *mProg) target(l string) int {
	ln, ok := m.syms[l]
	if !ok {
		return -1
	}
	return m.norm(ln)
}

// name is the label a branch has passed last when it goes on from a line.
func (m *mProg) name(line int, cur string) string {
	for ; line >= 0 && line < len(m.p.Lines) && m.p.Lines[line].Inst.nop(); line++ {
		if in := &m.p.Lines[line].Inst; in.Mnem == "label" {
			cur = in.Text
		}
	}
	return cur
}

func (m *mProg) start() *mState {
	return &mState{Line: m.norm(0), Budget: 700, Scratch: map[int]mVal{}, Name: m.name(0, teal.MainName)}
}

type mOutcome struct {
	Next     *mState
	Forks    []*mState
	Error    string // the instruction cannot be executed: the simulation stops
	DontCare bool   // nothing is claimed for this instruction in this state
	CostAny  bool   // the cost depends on a length that is not known
	Over     bool   // out of budget
	Cost     int
}

type mFail struct{ s string }
type mSkip struct{}

func typOK(want, got byte) bool { return want == 'a' || got == 'a' || want == got }

func argKindOf(op *refOp, field string) string {
	for _, a := range op.Args {
		if a.GoField == field {
			return a.Kind
		}
	}
	return ""
}

// fieldType finds the stack type of the field operand of an instruction.
func fieldType(in *rInst) byte {
	op := refOps[in.Mnem]
	for _, a := range op.Args {
		fs, ok := refFieldByNum[a.Kind]
		if !ok {
			continue
		}
		f, ok := fs[int(in.Nums[a.GoField])]
		if !ok || f.Type == '-' {
			panic(mSkip{})
		}
		return f.Type
	}
	panic(mSkip{})
}

func (m *mProg) cost(in *rInst, s *mState) (c int, any bool) {
	op := refOps[in.Mnem]
	spec := op.Cost
	switch {
	case strings.HasPrefix(spec, "F:"):
		var v int64
		for _, a := range op.Args {
			if x, ok := in.Nums[a.GoField]; ok {
				v = x
			}
		}
		p := strings.Split(spec[2:], ",")
		if int(v) >= len(p) {
			panic(mSkip{})
		}
		c, _ = strconv.Atoi(p[v])
		return c, false
	case spec == "L64" || spec == "LJ":
		k := 1 // json_ref: the document lies below the key
		if spec == "L64" {
			k = 0
		}
		if len(s.Stack) <= k {
			return 1, true
		}
		n := s.Stack[len(s.Stack)-1-k].Len
		if n < 0 {
			return 1, true
		}
		if spec == "LJ" {
			return 25 + 2*((n+6)/7), false
		}
		return 1 + (n+15)/16, false
	case strings.Contains(spec, "@"):
		p := strings.Split(spec, "@1:")
		if m.p.Version == 1 {
			spec = p[1]
		} else {
			spec = p[0]
		}
	}
	c, _ = strconv.Atoi(spec)
	return c, false
}

// step is the transition of one instruction. seen: what the simulator shows
// after the step is not consulted here; see (*vmMonitor).step.
func (m *mProg) step(s *mState) (out mOutcome) {
	in := &m.p.Lines[s.Line].Inst
	defer func() {
		switch e := recover().(type) {
		case nil:
		case mFail:
			out = mOutcome{Error: e.s, Cost: out.Cost, CostAny: out.CostAny}
		case mSkip:
			out = mOutcome{DontCare: true}
		default:
			panic(e)
		}
	}()
	out.Cost, out.CostAny = m.cost(in, s)
	if !out.CostAny && out.Cost > s.Budget {
		n := s.clone()
		n.Line = -1
		return mOutcome{Next: n, Over: true, Cost: out.Cost}
	}
	n := s.clone()
	n.Budget -= out.Cost
	n.Trace = append(n.Trace, s.Line)
	pop := func(t byte) mVal {
		if len(n.Stack) == 0 {
			panic(mFail{"stack too short"})
		}
		v := n.Stack[len(n.Stack)-1]
		if !typOK(t, v.T) {
			panic(mFail{fmt.Sprintf("type: want %c got %c", t, v.T)})
		}
		n.Stack = n.Stack[:len(n.Stack)-1]
		return v
	}
	push := func(v mVal) { n.Stack = append(n.Stack, v) }
	plain := func(t byte) mVal { return mVal{T: t, Len: -1} }
	next := m.norm(s.Line + 1)
	n.Line = next
	n.Name = m.name(s.Line+1, s.Name)
	jump := func(f *mState, l string) {
		f.Line = m.target(l)
		if ln, ok := m.syms[l]; ok {
			f.Name = m.name(ln, s.Name)
		}
	}
	fork := func(l string) {
		f := n.clone()
		jump(f, l)
		out.Forks = append(out.Forks, f)
	}
	scr := func(ix int) mVal {
		v, ok := n.Scratch[ix]
		if !ok {
			return plain('a')
		}
		return mVal{T: 'a', Len: v.Len, Sub: v.S}
	}
	num := func(f string) int { return int(in.Nums[f]) }

	switch in.Mnem {
	case "err":
		n.Line = -1
	case "return":
		pop('i')
		n.Line = -1
	case "b":
		jump(n, in.Labels[0])
	case "bz", "bnz":
		pop('i')
		fork(in.Labels[0])
	case "switch":
		pop('i')
		for _, l := range in.Labels {
			fork(l)
		}
	case "match":
		for range in.Labels {
			pop('a')
		}
		pop('a')
		for _, l := range in.Labels {
			fork(l)
		}
	case "callsub":
		n.Frames = append(n.Frames, mFrame{Ret: s.Line, P: len(n.Stack), Name: s.Name})
		jump(n, in.Labels[0])
	case "retsub":
		if len(n.Frames) == 0 {
			panic(mSkip{})
		}
		f := n.Frames[len(n.Frames)-1]
		if f.Proto {
			if len(n.Stack)-f.Ress < f.P {
				panic(mFail{"not enough results"})
			}
			res := append([]mVal{}, n.Stack[len(n.Stack)-f.Ress:]...)
			n.Stack = append(n.Stack[:f.P-f.Args], res...)
		}
		n.Frames = n.Frames[:len(n.Frames)-1]
		n.Line = m.norm(f.Ret + 1)
		n.Name = m.name(f.Ret+1, f.Name)
	case "proto":
		if len(n.Frames) == 0 {
			panic(mSkip{})
		}
		f := &n.Frames[len(n.Frames)-1]
		if f.Proto || f.P != len(n.Stack) {
			panic(mSkip{}) // a second declaration, or one after other instructions
		}
		f.Args, f.Ress, f.Proto = num("Args"), num("Results"), true
		if f.Args > f.P {
			panic(mFail{"not enough arguments"})
		}
	case "frame_dig", "frame_bury":
		if len(n.Frames) == 0 {
			panic(mFail{"no frame"})
		}
		f := n.Frames[len(n.Frames)-1]
		i := num("Index")
		if !f.Proto || i < -f.Args {
			panic(mSkip{})
		}
		if in.Mnem == "frame_dig" {
			if f.P+i >= len(n.Stack) {
				panic(mFail{"frame index"})
			}
			push(n.Stack[f.P+i])
		} else {
			v := pop('a')
			if f.P+i >= len(n.Stack) {
				panic(mFail{"frame index"})
			}
			n.Stack[f.P+i] = v
		}
	case "bury":
		v := pop('a')
		i := len(n.Stack) - num("Depth")
		if i < 0 || i >= len(n.Stack) {
			panic(mFail{"bury depth"})
		}
		n.Stack[i] = v
	case "dig":
		i := len(n.Stack) - 1 - num("Index")
		if i < 0 {
			panic(mFail{"dig depth"})
		}
		push(n.Stack[i])
	case "cover":
		d := num("Depth")
		if len(n.Stack) < d+1 {
			panic(mFail{"cover depth"})
		}
		k := len(n.Stack) - 1
		v := n.Stack[k]
		copy(n.Stack[k-d+1:], n.Stack[k-d:k])
		n.Stack[k-d] = v
	case "uncover":
		d := num("Depth")
		if len(n.Stack) < d+1 {
			panic(mFail{"uncover depth"})
		}
		k := len(n.Stack) - 1
		v := n.Stack[k-d]
		copy(n.Stack[k-d:k], n.Stack[k-d+1:])
		n.Stack[k] = v
	case "popn":
		for i := num("Depth"); i > 0; i-- {
			pop('a')
		}
	case "dup":
		v := pop('a')
		push(v)
		push(v)
	case "dup2":
		b := pop('a')
		a := pop('a')
		for _, v := range []mVal{a, b, a, b} {
			push(v)
		}
	case "dupn":
		v := pop('a')
		for i := num("Count"); i >= 0; i-- {
			push(v)
		}
	case "swap":
		b := pop('a')
		a := pop('a')
		push(b)
		push(a)
	case "load":
		push(scr(num("Index")))
	case "store":
		n.Scratch[num("Index")] = pop('a')
	case "loads":
		ix := pop('i')
		if ix.Const {
			if ix.U > 255 {
				panic(mFail{"slot"})
			}
			push(scr(int(ix.U)))
		} else {
			push(plain('a'))
		}
	case "stores":
		v := pop('a')
		ix := pop('i')
		if ix.Const {
			if ix.U > 255 {
				panic(mFail{"slot"})
			}
			n.Scratch[int(ix.U)] = v
		}
	case "pushints":
		for range in.U64 {
			push(plain('i'))
		}
	case "pushbytess":
		for _, b := range in.Bytes {
			push(mVal{T: 'b', Len: len(b)})
		}
	case "int":
		push(mVal{T: 'i', Const: true, U: in.U64[0], Len: -1, Show: []string{strconv.FormatUint(in.U64[0], 10), fmt.Sprintf("0x%x", in.U64[0])}})
	case "byte", "pushbytes":
		b := in.Bytes[0]
		push(mVal{T: 'b', Len: len(b), Show: []string{base64.StdEncoding.EncodeToString(b), hex.EncodeToString(b), "0x" + hex.EncodeToString(b), strconv.Quote(string(b))}})
	case "method":
		push(mVal{T: 'b', Len: 4, Show: []string{in.Text, strconv.Quote(in.Text)}})
	case "itxn_field":
		v := pop('a')
		if t := fieldType(in); !typOK(t, v.T) {
			panic(mSkip{})
		}
	default:
		op := refOps[in.Mnem]
		if op == nil || op.Special {
			panic(harnessBug{"no model for " + in.Mnem})
		}
		for k := len(op.Pops) - 1; k >= 0; k-- {
			t := op.Pops[k]
			if t == 'F' {
				t = fieldType(in)
			}
			pop(t)
		}
		for k := range op.Pushes {
			t := op.Pushes[k]
			if t == 'F' {
				t = fieldType(in)
			}
			push(plain(t))
		}
	}
	out.Next = n
	return out
}

// ---------------------------------------------------------------- monitor

type vmMonitor struct {
	m     *mProg
	res   *teal.ProcessResult
	vm    *teal.Vm
	st    map[int]*mState // by branch id
	order []int
	o     *Obs
	kinds map[string]bool // the kinds of discrepancy this property owns
	dead  bool            // stop: the model lost track (reported or not)
	steps int
	ended string
}

func newMonitor(src string, o *Obs, kinds ...string) *vmMonitor {
	p := refAnalyse(src)
	res := teal.Process(src)
	if len(res.Listing) != len(p.Lines) {
		return nil
	}
	mo := &vmMonitor{m: newModel(p), res: res, o: o, st: map[int]*mState{}, kinds: map[string]bool{}}
	for _, k := range kinds {
		mo.kinds[k] = true
	}
	mo.vm = teal.NewVm(res)
	if len(mo.vm.Branches) != 1 {
		mo.fault("fork", "a new machine has %d branches", len(mo.vm.Branches))
		return mo
	}
	b := mo.vm.Branches[0]
	s := mo.m.start()
	mo.st[b.Id] = s
	mo.order = append(mo.order, b.Id)
	mo.compare(b, s, "start", "", true)
	return mo
}

// fault reports a discrepancy when its kind is this property's, and stops.
func (mo *vmMonitor) fault(kind, f string, a ...interface{}) {
	mo.dead = true
	own := mo.kinds["all"]
	for _, k := range strings.Split(kind, "|") {
		own = own || mo.kinds[k]
	}
	if own {
		mo.o.bad("%s: %s", kind, fmt.Sprintf(f, a...))
	} else {
		mo.o.count("foreign_discrepancy", 1)
	}
}

func vtype(t teal.VmDataType) byte {
	switch t {
	case teal.VmTypeAny:
		return 'a'
	case teal.VmTypeUint64:
		return 'i'
	case teal.VmTypeBytes:
		return 'b'
	}
	return '?'
}

func (mo *vmMonitor) alive(b *teal.VmBranch) bool {
	return mo.m.norm(b.Line) >= 0
}

// compare checks a branch of the simulator against its expected state and
// fills in how fresh values are shown.
func (mo *vmMonitor) compare(b *teal.VmBranch, s *mState, what, mnem string, full bool) {
	if mo.dead {
		return
	}
	pre := "" // the kind prefix: what the stepped branch did, or another branch
	if what != "step" {
		pre = what + "-"
	}
	call := mnem == "callsub" || mnem == "retsub" || mnem == "proto" || mnem == "frame_dig" || mnem == "frame_bury"
	if what == "step" && call {
		pre = "call-"
	}
	where := brName{b.Id, what, mnem}
	if got := mo.m.norm(b.Line); got != s.Line {
		mo.fault(pre+"line", "%s: at line %d, expected %d", where, got, s.Line)
		return
	}
	if b.Budget != s.Budget {
		mo.fault(pre+"budget", "%s: budget %d, expected %d", where, b.Budget, s.Budget)
		return
	}
	if len(b.Stack.Items) != len(s.Stack) {
		mo.fault(pre+"stack", "%s: stack depth %d, expected %d: %v", where, len(b.Stack.Items), len(s.Stack), b.Stack.Items)
		return
	}
	if len(b.Frames) != len(s.Frames) {
		mo.fault(pre+"frames", "%s: %d frames, expected %d", where, len(b.Frames), len(s.Frames))
		return
	}
	for i, f := range s.Frames {
		if b.Frames[i].Return != f.Ret {
			mo.fault(pre+"frames", "%s: frame %d returns to %d, expected %d", where, i, b.Frames[i].Return, f.Ret)
			return
		}
	}
	if s.Line >= 0 {
		if b.Name != s.Name {
			mo.fault("name", "%s: at %q, the label passed last is %q", where, b.Name, s.Name)
			return
		}
		for i, f := range s.Frames {
			if b.Frames[i].Name != f.Name {
				mo.fault("name", "%s: frame %d called from %q, expected %q", where, i, b.Frames[i].Name, f.Name)
				return
			}
		}
		mo.o.count("names", 1)
	}
	if len(b.Trace) != len(s.Trace) {
		mo.fault(pre+"trace", "%s: trace of %d, expected %d", where, len(b.Trace), len(s.Trace))
		return
	}
	if !full {
		return
	}
	for i := range s.Stack {
		v := b.Stack.Items[i]
		if vtype(v.T) != s.Stack[i].T {
			mo.fault(pre+"stack", "%s: stack[%d] is %s, expected type %c", where, i, v, s.Stack[i].T)
			return
		}
		str := v.String()
		if s.Stack[i].S == "" {
			s.Stack[i].S = str
			if sub := s.Stack[i].Sub; sub != "" && !strings.Contains(str, sub) {
				mo.fault(pre+"stack", "%s: a load shows %q, the slot holds %q", where, str, sub)
				return
			}
			if sh := s.Stack[i].Show; sh != nil && !shows(str, sh) {
				mo.fault(pre+"stack", "%s: a constant shows %q, its value is %q", where, str, sh)
				return
			}
		} else if str != s.Stack[i].S {
			mo.fault(pre+"stack", "%s: stack[%d] is %q, expected %q", where, i, str, s.Stack[i].S)
			return
		}
	}
	for i := range b.Scratch.Items {
		v := &b.Scratch.Items[i]
		if v.T == teal.VmTypeNone && len(s.Scratch) == 0 {
			continue
		}
		e, ok := s.Scratch[i]
		if (v.T != teal.VmTypeNone) != ok {
			mo.fault(pre+"scratch", "%s: scratch slot %d is %q, expected stored=%v", where, i, v, ok)
			return
		}
		if ok && (v.String() != e.S || vtype(v.T) != e.T) {
			mo.fault(pre+"scratch", "%s: scratch slot %d is %q, expected %q", where, i, v, e.S)
			return
		}
	}
	for k := range s.Trace {
		if k < len(s.Trace)-3 && what == "step" {
			continue
		}
		if sameOp(b.Trace[k], mo.res.Listing[s.Trace[k]]) {
			continue
		}
		if got, want := canonOp(b.Trace[k]), canonOp(mo.res.Listing[s.Trace[k]]); got != want {
			mo.fault(pre+"trace", "%s: trace[%d] is %q, expected %q", where, k, got, want)
			return
		}
	}
}

// shows says whether a description ends in one of the notations of a value.
func shows(str string, sh []string) bool {
	for _, x := range sh {
		if str == x || strings.HasSuffix(str, " "+x) || strings.HasSuffix(str, ":"+x) || strings.HasSuffix(str, "("+x+")") {
			return true
		}
	}
	return false
}

type brName struct {
	id         int
	what, mnem string
}

func (n brName) String() string { return fmt.Sprintf("branch %d (%s, %s)", n.id, n.what, n.mnem) }

func (mo *vmMonitor) live() []int {
	var out []int
	for _, id := range mo.order {
		if mo.st[id].Line >= 0 {
			out = append(out, id)
		}
	}
	return out
}

func (mo *vmMonitor) branch(id int) *teal.VmBranch {
	if id < len(mo.vm.Branches) && mo.vm.Branches[id].Id == id {
		return mo.vm.Branches[id]
	}
	for _, b := range mo.vm.Branches {
		if b.Id == id {
			return b
		}
	}
	return nil
}

// step makes the simulator execute one instruction and checks everything it did.
// want is the branch that has to move, or -1 for any.
func (mo *vmMonitor) step(want int) {
	if mo.dead || mo.ended != "" {
		return
	}
	vm := mo.vm
	live := mo.live()
	nb := len(vm.Branches)
	cur := -1
	if vm.Branch != nil && mo.st[vm.Branch.Id] != nil && mo.st[vm.Branch.Id].Line >= 0 {
		cur = vm.Branch.Id
	}
	vm.Step()
	mo.steps++
	if len(live) == 0 {
		if vm.Error != nil || len(vm.Branches) != nb {
			mo.fault("line", "a step with nothing left to do: error %v, %d new branches", vm.Error, len(vm.Branches)-nb)
		}
		mo.ended = "all branches ended"
		return
	}
	// which branch moved?
	moved := -1
	for _, id := range live {
		b, s := mo.branch(id), mo.st[id]
		if b == nil {
			mo.fault("other-line", "branch %d disappeared", id)
			return
		}
		if len(b.Trace) != len(s.Trace) || mo.m.norm(b.Line) != s.Line || b.Budget != s.Budget {
			if moved >= 0 {
				mo.fault("other-line", "one step moved branches %d and %d", moved, id)
				return
			}
			moved = id
		}
	}
	if moved < 0 && vm.Error != nil {
		moved = cur
	}
	if want >= 0 && moved >= 0 && moved != want {
		mo.fault("sched", "a step after switching to branch %d moved branch %d", want, moved)
		return
	}
	if moved < 0 {
		if vm.Error != nil {
			for _, id := range live {
				if o := mo.m.step(mo.st[id]); o.Error != "" || o.DontCare {
					mo.ended = "error"
					return
				}
			}
			mo.fault("error", "no live branch can fail here, yet: %v", vm.Error)
			return
		}
		mo.fault("line", "a step moved no branch although branches %v are alive", live)
		return
	}
	s := mo.st[moved]
	b := mo.branch(moved)
	in := &mo.m.p.Lines[s.Line].Inst
	out := mo.m.step(s)
	kerr := "error"
	switch in.Mnem {
	case "callsub", "retsub", "proto", "frame_dig", "frame_bury":
		kerr = "call-error"
	}
	if out.DontCare {
		mo.dead = true
		mo.o.count("unclaimed_instruction", 1)
		return
	}
	mo.o.count("steps", 1)
	if out.CostAny && out.Error == "" {
		// a cost that depends on an unknown length: at least 1, at most what is left
		if mo.m.norm(b.Line) < 0 && len(b.Trace) == len(s.Trace) {
			mo.dead = true // ran out of budget: possible
			return
		}
		c := s.Budget - b.Budget
		if c < 1 || b.Budget < 0 {
			mo.fault("budget", "%s charged %d, budget left %d", in.Mnem, c, b.Budget)
			return
		}
		out.Next.Budget = b.Budget
		for _, f := range out.Forks {
			f.Budget = b.Budget
		}
	}
	if b.Budget < 0 {
		mo.fault("budget", "budget %d after %s", b.Budget, in.Mnem)
		return
	}
	if out.Error != "" {
		if out.CostAny {
			mo.ended = "error"
			if vm.Error == nil && len(b.Trace) != len(s.Trace) {
				mo.fault(kerr, "%s accepted although: %s; stack %v", in.Mnem, out.Error, s.Stack)
			}
			return
		}
		if vm.Error == nil {
			mo.fault(kerr, "%q accepted although: %s; stack before %s", in.Str, out.Error, showStack(s.Stack))
			return
		}
		mo.o.count("errors", 1)
		mo.ended = "error"
		mo.others(moved, nb)
		return
	}
	if vm.Error != nil {
		mo.fault(kerr, "%q stopped with %v; stack before %s", in.Str, vm.Error, showStack(s.Stack))
		return
	}
	if out.Over {
		mo.o.count("out_of_budget", 1)
		if len(b.Trace) != len(s.Trace) {
			mo.fault("budget", "%q costs %d, was executed with budget %d", in.Str, out.Cost, s.Budget)
			return
		}
		if mo.m.norm(b.Line) >= 0 {
			mo.fault("budget", "%q costs %d with budget %d: the branch went on at line %d", in.Str, out.Cost, s.Budget, b.Line)
			return
		}
	}
	if !out.Over && out.Next.Line >= 0 && mo.m.norm(b.Line) < 0 && len(b.Trace) == len(s.Trace) && b.Budget == s.Budget {
		mo.fault("budget|line", "%q costs %d, was not executed with budget %d", in.Str, out.Cost, s.Budget)
	}
	mo.st[moved] = out.Next
	mo.compare(b, out.Next, "step", in.Mnem, true)
	if len(vm.Branches)-nb != len(out.Forks) {
		mo.fault("fork", "%q made %d new branches, expected %d", in.Str, len(vm.Branches)-nb, len(out.Forks))
		return
	}
	if len(out.Forks) > 0 {
		mo.o.count("forks", len(out.Forks))
	}
	for k, f := range out.Forks {
		fb := vm.Branches[nb+k]
		if mo.st[fb.Id] != nil {
			mo.fault("fork", "branch id %d used twice", fb.Id)
			return
		}
		// values keep what they show
		for i := range f.Stack {
			f.Stack[i].S = out.Next.Stack[i].S
		}
		mo.st[fb.Id] = f
		mo.order = append(mo.order, fb.Id)
		mo.compare(fb, f, "fork", in.Mnem, true)
	}
	mo.others(moved, nb)
	if !mo.dead && vm.Branch == nil && len(mo.live()) > 0 {
		mo.fault("line", "the simulation is over although branches %v are alive", mo.live())
	}
}

// others checks that no other branch changed.
func (mo *vmMonitor) others(moved, nb int) {
	bs := mo.vm.Branches[:nb]
	for k, b := range bs {
		if b.Id == moved || mo.dead {
			continue
		}
		s := mo.st[b.Id]
		if s == nil {
			continue
		}
		full := len(bs) <= 10 || (k+mo.steps)%len(bs) < 6
		mo.compare(b, s, "other", "", full)
		mo.o.count("isolation_checks", 1)
	}
}

func (mo *vmMonitor) final() {
	if mo.ended == "error" {
		return
	}
	for _, b := range mo.vm.Branches {
		if s := mo.st[b.Id]; s != nil && !mo.dead {
			mo.compare(b, s, "other", "", true)
		}
	}
}

func showStack(st []mVal) string {
	var sb strings.Builder
	for _, v := range st {
		sb.WriteByte(v.T)
	}
	return sb.String()
}

// shot is the whole visible state of a machine, for comparing two of them.
func shot(vm *teal.Vm) string {
	var sb strings.Builder
	for _, b := range vm.Branches {
		fmt.Fprintf(&sb, "#%d line=%d name=%s budget=%d stack=", b.Id, b.Line, b.Name, b.Budget)
		for _, v := range b.Stack.Items {
			sb.WriteString(v.String() + ";")
		}
		sb.WriteString(" scratch=")
		for i := range b.Scratch.Items {
			if v := b.Scratch.Items[i]; v.T != teal.VmTypeNone {
				fmt.Fprintf(&sb, "%d:%s;", i, v)
			}
		}
		fmt.Fprintf(&sb, " frames=")
		for _, f := range b.Frames {
			fmt.Fprintf(&sb, "%d,%d,%d,%s;", f.Return, f.NumArgs, f.NumReturns, f.Name)
		}
		fmt.Fprintf(&sb, " trace=%d\n", len(b.Trace))
	}
	if vm.Branch != nil {
		fmt.Fprintf(&sb, "current=%d", vm.Branch.Id)
	}
	fmt.Fprintf(&sb, " error=%v", vm.Error)
	return sb.String()
}

// sameOp: the very same instruction object (a shortcut: equal text decides otherwise).
func sameOp(a, b teal.Op) (same bool) {
	defer func() { recover() }() // not comparable
	return a == b
}
