package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- randomness

// Rng is a splitmix64 generator: cheap to seed, stable across Go releases.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Rg returns a value in [a, b].
func (r *Rng) Rg(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability n/d.
func (r *Rng) P(n, d int) bool { return r.N(d) < n }

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

func mix(parts ...interface{}) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return binary.LittleEndian.Uint64(h[:8])
}

// ---------------------------------------------------------------- cases

// Case is one self-contained input of a check; it is what a replay file holds.
type Case struct {
	Property string          `json:"property"`
	Gen      string          `json:"gen"`
	Src      []byte          `json:"src,omitempty"`
	Args     json.RawMessage `json:"args,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
}

func (c *Case) args(v interface{}) {
	if len(c.Args) == 0 {
		return
	}
	if err := json.Unmarshal(c.Args, v); err != nil {
		panic(harnessBug{err.Error()})
	}
}

func mkArgs(v interface{}) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

type harnessBug struct{ s string }

// Obs collects what one case execution observed.
type Obs struct {
	problems   []string
	counts     map[string]int
	nontrivial bool
	keys       []string // distinct things seen (states, shapes)
}

func (o *Obs) bad(format string, a ...interface{}) {
	if len(o.problems) < 20 {
		o.problems = append(o.problems, fmt.Sprintf(format, a...))
	}
}
func (o *Obs) count(name string, n int) {
	if o.counts == nil {
		o.counts = map[string]int{}
	}
	o.counts[name] += n
}
func (o *Obs) seen(key string) { o.keys = append(o.keys, key) }

// quickFactor multiplies the quick counts, where the thorough ones leave room.
const quickFactor = 3

// GenSpec makes N cases of one kind.
type GenSpec struct {
	Name     string
	Quick    int
	Thorough int
	Make     func(r *Rng, i int) *Case
}

// Check decides one property.
type Check struct {
	ID       string
	Rule     string
	Gens     []GenSpec
	Run      func(c *Case, o *Obs)
	Require  []string // counters that must be positive, or the run is inconclusive
	Serial   bool     // one case at a time
	Finish   func() []string
	Known    []Finding // genuine defects that are not repaired
	Assume   []string
	NoShrink bool
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// ---------------------------------------------------------------- running

// runCase executes a case, turning a panic of the code under test into a problem.
func runCase(ch *Check, c *Case) (o *Obs) {
	o = &Obs{}
	defer func() {
		if e := recover(); e != nil {
			if hb, ok := e.(harnessBug); ok {
				panic(hb)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "dragmz/teal") {
				panic(fmt.Sprintf("harness panic: %v\n%s", e, st))
			}
			o.bad("panic: %v\n%s", e, trimStack(st))
		}
	}()
	ch.Run(c, o)
	return o
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

type slot struct {
	mu    sync.Mutex
	c     *Case
	start time.Time
}

var hangLimit = time.Duration(envInt("VERIF_HANG", 90)) * time.Second
var memLimit = uint64(envInt("VERIF_MEM", 12)) << 30

// envInt reads a knob that only the mutation runs of tools/mutate use.
func envInt(name string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil && n > 0 {
		return n
	}
	return d
}

type runner struct {
	ch    *Check
	tier  string
	seed  uint64
	verif string
	track string

	mu      sync.Mutex
	evals   int
	counts  map[string]int
	gens    map[string]int
	uniq    map[uint64]struct{}
	keys    map[uint64]struct{}
	samples []json.RawMessage
	slots   []*slot
	stop    int32
	vioCase *Case
	vioObs  *Obs
}

func h64(b []byte) uint64 {
	h := sha256.Sum256(b)
	return binary.LittleEndian.Uint64(h[:8])
}

func (rn *runner) record(c *Case, o *Obs) {
	rn.mu.Lock()
	defer rn.mu.Unlock()
	rn.evals++
	rn.gens[c.Gen]++
	for k, v := range o.counts {
		rn.counts[k] += v
	}
	if o.nontrivial {
		rn.uniq[h64(append(append([]byte(fmt.Sprint(c.Gen, c.Seed, "\x00")), c.Src...), c.Args...))] = struct{}{}
	}
	for _, k := range o.keys {
		rn.keys[h64([]byte(k))] = struct{}{}
	}
	if o.nontrivial && len(rn.samples) < 3 && rn.gens[c.Gen] <= 2 {
		rn.samples = append(rn.samples, sampleOf(c))
	}
	if len(o.problems) > 0 && rn.vioCase == nil {
		rn.vioCase, rn.vioObs = c, o
		atomic.StoreInt32(&rn.stop, 1)
	}
}

func sampleOf(c *Case) json.RawMessage {
	src := string(c.Src)
	if len(src) > 600 {
		src = src[:600] + "..."
	}
	a := c.Args
	if len(a) > 600 {
		a = mkArgs(string(a[:600]) + "...")
	}
	return mkArgs(map[string]interface{}{"gen": c.Gen, "source": src, "args": a})
}

func (rn *runner) watchdog(done chan struct{}) {
	ms := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		metrics.Read(ms)
		over := ms[0].Value.Uint64() > memLimit
		var oldest *Case
		var age time.Duration
		for _, s := range rn.slots {
			s.mu.Lock()
			if s.c != nil {
				if a := time.Since(s.start); a > age {
					age, oldest = a, s.c
				}
			}
			s.mu.Unlock()
		}
		if oldest != nil && (age > hangLimit || over) {
			why := fmt.Sprintf("no answer after %s (such a case normally takes milliseconds)", age.Round(time.Second))
			if over {
				why = fmt.Sprintf("memory in use grew past %d GB while this case ran", memLimit>>30)
			}
			rn.mu.Lock()
			rn.vioCase, rn.vioObs = oldest, &Obs{problems: []string{why}}
			rn.report(false)
			os.Exit(1)
		}
	}
}

func (rn *runner) run() int {
	debug.SetMaxStack(256 << 20)
	start := time.Now()
	rn.counts = map[string]int{}
	rn.gens = map[string]int{}
	rn.uniq = map[uint64]struct{}{}
	rn.keys = map[uint64]struct{}{}

	type job struct {
		g *GenSpec
		i int
	}
	var jobs []job
	for gi := range rn.ch.Gens {
		g := &rn.ch.Gens[gi]
		n := g.Quick
		if m := n * quickFactor; m <= g.Thorough {
			n = m
		}
		if rn.tier == "thorough" {
			n = g.Thorough
			if n == 0 {
				n = g.Quick
			}
		}
		if d := envInt("VERIF_SCALE", 1); d > 1 { // mutation runs: a part of the cases
			for i := 0; i < n; i++ {
				if h64([]byte(fmt.Sprint(g.Name, i)))%uint64(2*d) == 0 || i < n/(2*d) || n <= 300 || i < 200 {
					jobs = append(jobs, job{g, i})
				}
			}
			continue
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{g, i})
		}
	}
	nw := runtime.GOMAXPROCS(0)
	if rn.ch.Serial {
		nw = 1
	}
	for i := 0; i < nw; i++ {
		rn.slots = append(rn.slots, &slot{})
	}
	done := make(chan struct{})
	go rn.watchdog(done)

	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			s := rn.slots[w]
			for atomic.LoadInt32(&rn.stop) == 0 {
				k := atomic.AddInt64(&next, 1)
				if k >= int64(len(jobs)) {
					return
				}
				j := jobs[k]
				c := j.g.Make(NewRng(mix(rn.ch.ID, j.g.Name, j.i, rn.seed)), j.i)
				if c == nil {
					continue
				}
				c.Property = rn.ch.ID
				c.Gen = j.g.Name
				if rn.track != "" {
					b, _ := json.Marshal(c)
					os.WriteFile(filepath.Join(rn.track, fmt.Sprint(w)), b, 0644)
				}
				s.mu.Lock()
				s.c, s.start = c, time.Now()
				s.mu.Unlock()
				o := runCase(rn.ch, c)
				s.mu.Lock()
				s.c = nil
				s.mu.Unlock()
				rn.record(c, o)
			}
		}(w)
	}
	wg.Wait()
	close(done)

	if rn.vioCase == nil && rn.ch.Finish != nil {
		for _, p := range rn.ch.Finish() {
			if rn.vioCase == nil {
				rn.vioCase, rn.vioObs = &Case{Property: rn.ch.ID, Gen: "whole-run"}, &Obs{}
			}
			rn.vioObs.bad("%s", p)
		}
	}

	rn.evidence(time.Since(start))

	if rn.vioCase == nil {
		listed := knownFindings(rn.verif, rn.ch.ID)
		for _, k := range rn.ch.Known {
			what := k.Fails()
			if what == "" {
				continue // repaired
			}
			if !listed[k.Key] {
				rn.vioCase, rn.vioObs = &Case{Property: rn.ch.ID, Gen: "whole-run"}, &Obs{}
				rn.vioObs.bad("%s: %s", k.Key, what)
				break
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", rn.ch.ID, k.Key, what)
		}
	}
	if rn.vioCase != nil {
		rn.report(true)
		return 1
	}
	for _, k := range rn.ch.Require {
		if rn.counts[k] == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: nothing of kind %q was observed\n", rn.ch.ID, k)
			return 3
		}
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", rn.ch.ID, rn.evals, len(rn.uniq), time.Since(start).Seconds())
	return 0
}

// Finding is one specific input on which the code is known to fail.
type Finding struct {
	Key   string
	Fails func() string // what fails, empty if nothing does
}

// knownFindings reads the keys of the open findings of a property.
func knownFindings(verif, id string) map[string]bool {
	res := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		b, _ = os.ReadFile("/verif/KNOWN_FINDINGS.txt")
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 2 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			res[f[2][4:]] = true
		}
	}
	return res
}

func (rn *runner) evidence(d time.Duration) {
	samples := rn.samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	vio := 0
	if rn.vioCase != nil {
		vio = 1
	}
	ev := map[string]interface{}{
		"property": rn.ch.ID,
		"tier":     rn.tier,
		"seed":     rn.seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":          rn.evals,
			"distinct_nontrivial":  len(rn.uniq),
			"distinct_states_seen": len(rn.keys),
			"rule":                 rn.ch.Rule,
			"samples":              samples,
			"observed":             rn.counts,
			"cases_by_generator":   rn.gens,
		},
		"assumptions": append([]string{"the verdict covers the executions listed here, not all inputs"}, rn.ch.Assume...),
		"wall_s":      d.Seconds(),
		"violations":  vio,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(rn.verif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, rn.ch.ID+".json"), append(b, '\n'), 0644)
}

func (rn *runner) report(shrink bool) {
	c, o := rn.vioCase, rn.vioObs
	if shrink && !rn.ch.NoShrink && len(c.Src) > 0 && c.Gen != "whole-run" {
		c, o = shrinkCase(rn.ch, c, o)
	}
	path := writeReplay(rn.verif, c, o.problems)
	for i, p := range o.problems {
		if i == 5 {
			break
		}
		fmt.Printf("  problem: %s\n", firstLines(p, 12))
	}
	if len(c.Src) > 0 && len(c.Src) < 2000 {
		fmt.Printf("  source: %q\n", string(c.Src))
	}
	if len(c.Args) > 0 && len(c.Args) < 3000 {
		fmt.Printf("  args: %s\n", string(c.Args))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return strings.Join(ls, "\n    ")
}

func writeReplay(verif string, c *Case, problems []string) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(map[string]interface{}{
		"case": c, "source_text": string(c.Src), "problems": problems,
	}, "", " ")
	sum := sha256.Sum256(b)
	p := filepath.Join(dir, c.Property+"-"+hex.EncodeToString(sum[:4])+".json")
	os.WriteFile(p, append(b, '\n'), 0644)
	return p
}

// shrinkCase removes lines, then bytes, while the case still fails.
func shrinkCase(ch *Check, c *Case, o *Obs) (*Case, *Obs) {
	deadline := time.Now().Add(20 * time.Second)
	best, bo := c, o
	try := func(src []byte) bool {
		if time.Now().After(deadline) {
			return false
		}
		n := *best
		n.Src = src
		var oo *Obs
		fin := make(chan struct{})
		go func() { // a shrunk input may hang where the original did not
			defer close(fin)
			defer func() { recover() }()
			oo = runCase(ch, &n)
		}()
		select {
		case <-fin:
		case <-time.After(5 * time.Second):
			return false
		}
		if oo != nil && len(oo.problems) > 0 {
			best, bo = &n, oo
			return true
		}
		return false
	}
	for size := bytes.Count(c.Src, []byte("\n")) / 2; size >= 1; size /= 2 {
		for i := 0; ; {
			ls := bytes.SplitAfter(best.Src, []byte("\n"))
			if i+size > len(ls) {
				break
			}
			var n []byte
			for k, l := range ls {
				if k < i || k >= i+size {
					n = append(n, l...)
				}
			}
			if !try(n) {
				i += size
			}
		}
	}
	if len(best.Src) < 400 {
		for i := 0; i < len(best.Src); {
			n := append(append([]byte{}, best.Src[:i]...), best.Src[i+1:]...)
			if !try(n) {
				i++
			}
		}
	}
	return best, bo
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
