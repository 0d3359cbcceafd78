package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/dragmz/teal"
)

// ---------------------------------------------------------------- C01

var sevNames = map[int]string{1: "error", 2: "warn", 3: "info"}

func init() {
	srcs := func(r *Rng) string {
		if r.P(1, 60) {
			return genSized(r, r.N(largeKinds), false, 2)
		}
		switch r.N(6) {
		case 0:
			return genLexical(r)
		case 1:
			return genTokenSoup(r)
		case 2:
			return genFlow(r, r.Rg(1, 15), false)
		case 3:
			return controlGen(r)
		}
		return genAny(r)
	}
	register(&Check{
		ID:   "C01",
		Rule: "a generated file is given to the real tokenize, lint and interpret programs; their output is compared with the reference tokens and with the library's findings. Non-trivial: the file has a finding or at least three tokens; distinct by file.",
		Gens: []GenSpec{
			gsrc("tokenize", 300, 6000, srcs),
			gsrc("lint", 400, 6000, srcs),
			gsrc("interpret", 200, 3000, func(r *Rng) string {
				if r.P(1, 3) {
					return genAny(r)
				}
				return genFlow(r, r.Rg(1, 12), false)
			}),
			{Name: "missing", Quick: 6, Thorough: 12, Make: func(r *Rng, i int) *Case { return srcCase("") }},
		},
		Require: []string{"token lines", "finding lines", "interpreted", "refusals", "error", "warn"},
		Run: func(c *Case, o *Obs) {
			dir, err := os.MkdirTemp("", "tools")
			if err != nil {
				panic(harnessBug{err.Error()})
			}
			defer os.RemoveAll(dir)
			f := filepath.Join(dir, "p.teal")
			src := string(c.Src)
			if c.Gen == "missing" {
				// a file that is not there is an error, not an empty result
				for _, t := range []string{"tokenize", "lint", "interpret"} {
					if bin := toolPath(t); bin != "" {
						q := &Obs{}
						_, code, _ := runTool(bin, []string{"-path", f}, false, nil, false, q)
						if code == 0 {
							o.bad("%s succeeds on a file that does not exist", t)
						}
						o.count("refusals", 1)
					}
				}
				return
			}
			if err := os.WriteFile(f, c.Src, 0o600); err != nil {
				panic(harnessBug{err.Error()})
			}
			bin := toolPath(c.Gen)
			if bin == "" {
				return
			}
			if c.Gen == "interpret" && !smallProgram(src, 3000) {
				return
			}
			out, code, ok := runTool(bin, []string{"-path", f}, false, nil, false, o)
			if !ok {
				return
			}
			if code != 0 {
				o.bad("%s ends with status %d", c.Gen, code)
			}
			var want []string
			switch c.Gen {
			case "tokenize":
				toks := refLex(src)
				var errs []string
				for _, t := range toks {
					pos := fmt.Sprintf("%d:%d:%d: %s", t.Line+1, t.B+1, t.E+1, t.Kind)
					if t.Kind != "EOL" {
						pos += " = " + t.Val
					}
					want = append(want, pos)
					if t.Bad {
						errs = append(errs, "")
					}
				}
				got := splitOut(out)
				o.count("token lines", len(want))
				o.nontrivial = len(want) > 2
				if len(got) != len(want)+len(errs) {
					o.bad("%d lines printed for %d tokens and %d unclosed strings", len(got), len(want), len(errs))
					return
				}
				for i := range want {
					if got[i] != want[i] {
						o.bad("token %d is printed as %q, expected %q", i, got[i], want[i])
						return
					}
				}
			case "lint":
				for _, d := range teal.Process(src).Diagnostics {
					n := sevNames[int(d.Severity())]
					want = append(want, fmt.Sprintf("%d:%d-%d:%s %s", d.Line(), d.Begin(), d.End(), n, d.String()))
					o.count(n, 1)
				}
				o.sameSet("printed findings", splitOut(out), want)
				o.count("finding lines", len(want))
				o.nontrivial = len(want) > 0
			case "interpret":
				o.count("interpreted", 1)
				o.nontrivial = true
			}
		},
	})
}

func splitOut(b []byte) []string {
	s := strings.TrimSuffix(string(b), "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}
