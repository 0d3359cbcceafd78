package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/dragmz/teal"
)

type sarifFile struct {
	Path string // relative to the scanned tree
	Text []byte
	Link int // 1, 2: a link (relative, absolute) to a file elsewhere
}

type sarifArgs struct {
	Files []sarifFile
	Dirs  []string
	Scan  string // relative to the scratch directory
	Abs   bool
	Slash bool
	Via   string // a link to the directory, scanned instead of it
	Bad   bool // the path does not exist
}

type sarifLog struct {
	Version *string `json:"version"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Name  string `json:"name"`
				Rules []struct {
					Id string `json:"id"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Artifacts *[]struct {
			Location struct {
				Uri string `json:"uri"`
			} `json:"location"`
		} `json:"artifacts"`
		Results *[]struct {
			Level   string `json:"level"`
			RuleId  string `json:"ruleId"`
			Message struct {
				Text string `json:"text"`
			} `json:"message"`
			RuleIndex *int `json:"ruleIndex"`
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct {
						Uri   string `json:"uri"`
						Index *int   `json:"index"`
					} `json:"artifactLocation"`
					Region struct {
						StartLine   *int `json:"startLine"`
						StartColumn *int `json:"startColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
		} `json:"results"`
	} `json:"runs"`
}

// viaJSON: bytes that are not UTF-8 cannot be in a report as they are.
func viaJSON(s string) string {
	var t string
	json.Unmarshal(mkArgs(s), &t)
	return t
}

func sevLevel(s teal.DiagnosticSeverity) string {
	switch s {
	case teal.DiagErr:
		return "error"
	case teal.DiagWarn:
		return "warning"
	}
	return "note"
}

var fileWords = []string{"a", "b", "app", "x y", "p%41", "h#1", "q?z", "ünï", "a.b", "A", "a&b", "plus+", "semi;c", "co:lon", "[br]", "back\\slash", "quote\"", "日本", "-path", "a%2Fb", "~", "$x", "%zz", ".hidden", ".git", "node_modules", "vendor", "testdata", "_x", "..a", "a.", "nul", "build", "README", "x.teal", strings.Repeat("long name ", 12) + "x", strings.Repeat("é%", 40)}
var fileExts = []string{".teal", ".teal", ".teal", ".teal", ".teal", ".teal", ".TEAL", ".teal.bak", ".tea", "", ".tealx", ".txt", "teal"}

func sarifText(r *Rng) []byte {
	switch r.N(6) {
	case 0:
		return []byte(genLexical(r))
	case 1:
		return []byte(genControl(r, cfOpts{}))
	case 2:
		return []byte(pick(r, []string{"", "\n", "int 1", "int 1\r\nfoo\r\n", "#pragma version 8\nint 1\nreturn\n", "b x", "\xff\xfe bad", "\n\n   zzz 1 2", "x:\nx:\n", "byte \"\xff\""}))
	default:
		if r.P(1, 60) {
			return []byte(genSized(r, r.N(largeKinds), false, 2))
		}
		return []byte(genAny(r))
	}
}

func init() {
	register(&Check{
		ID:   "R01",
		Rule: "the built scanner runs over generated trees of files and directories with ordinary and odd names; its report is decoded and compared, as multisets, with an independent walk and the analysis of each file. Non-trivial: at least one file was scanned and one finding reported; distinct by tree.",
		Gens: []GenSpec{
			{Name: "trees", Quick: 2500, Thorough: 40000, Make: func(r *Rng, i int) *Case {
				var a sarifArgs
				dirs := []string{"t"}
				for k := r.N(5); k > 0; k-- {
					d := filepath.Join(pick(r, dirs), pick(r, fileWords)+pick(r, []string{"", "", "", ".teal", ".d"}))
					dirs = append(dirs, d)
				}
				a.Dirs = dirs
				used := map[string]bool{}
				for _, d := range dirs {
					used[d] = true
				}
				for k := r.N(7); k > 0; k-- {
					n := pick(r, fileWords)
					if r.P(1, 12) {
						n = ""
					}
					p := filepath.Join(pick(r, dirs), n+pick(r, fileExts))
					if used[p] || filepath.Base(p) == "" {
						continue
					}
					used[p] = true
					f := sarifFile{Path: p, Text: sarifText(r)}
					if r.P(1, 8) {
						f.Link = r.Rg(1, 2)
					}
					a.Files = append(a.Files, f)
				}
				a.Scan = "t"
				if r.P(1, 4) {
					a.Scan = pick(r, dirs)
				}
				a.Abs, a.Slash = r.P(1, 2), r.P(1, 4)
				if r.P(1, 8) {
					a.Via = pick(r, []string{"link", "l.teal", "l k"})
				}
				return &Case{Args: mkArgs(a)}
			}},
			{Name: "deep", Quick: 30, Thorough: 600, Make: func(r *Rng, i int) *Case {
				// many files, deep directories
				var a sarifArgs
				a.Dirs = []string{"t"}
				d := "t"
				for k := r.Rg(1, 25); k > 0; k-- {
					d = filepath.Join(d, pick(r, []string{"d", "e", ".f", "g.teal"}))
					a.Dirs = append(a.Dirs, d)
				}
				for k := r.Rg(10, 150); k > 0; k-- {
					a.Files = append(a.Files, sarifFile{Path: filepath.Join(pick(r, a.Dirs), fmt.Sprintf("f%d.teal", k)), Text: []byte(pick(r, []string{"", "int 1\n", "bogus\n", "b x\n", "x:\nint 1\nb x\n"}))})
				}
				a.Scan, a.Abs = "t", r.P(1, 2)
				return &Case{Args: mkArgs(a)}
			}},
			{Name: "large", Quick: 24, Thorough: 600, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(sarifArgs{Files: []sarifFile{{Path: "l.teal", Text: []byte(genLarge(r, i, false))}}, Scan: "l.teal"})}
			}},
			{Name: "one-file", Quick: 1200, Thorough: 20000, Make: func(r *Rng, i int) *Case {
				p := pick(r, fileWords) + pick(r, fileExts)
				return &Case{Args: mkArgs(sarifArgs{Files: []sarifFile{{Path: p, Text: sarifText(r), Link: r.N(9) / 7 * r.Rg(1, 2)}}, Scan: p, Abs: r.P(1, 2)})}
			}},
			{Name: "missing", Quick: 6, Thorough: 20, Make: func(r *Rng, i int) *Case {
				return &Case{Args: mkArgs(sarifArgs{Scan: pick(r, fileWords) + ".teal", Abs: r.P(1, 2), Bad: true})}
			}},
		},
		Require: []string{"artifacts", "findings", "level error", "level warning", "missing paths", "directories", "other files", "linked files", "linked directories"},
		Run:     runSarif,
	})
}

func runSarif(c *Case, o *Obs) {
	var a sarifArgs
	c.args(&a)
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "tealsarif")
	if _, err := os.Stat(bin); err != nil {
		panic(harnessBug{"no scanner: " + err.Error()})
	}
	dir, err := os.MkdirTemp("", "verif-sarif-")
	if err != nil {
		panic(harnessBug{err.Error()})
	}
	defer os.RemoveAll(dir)
	if dir, err = filepath.EvalSymlinks(dir); err != nil {
		panic(harnessBug{err.Error()})
	}
	for _, d := range a.Dirs {
		os.MkdirAll(filepath.Join(dir, d), 0755)
	}
	want := map[string][]string{}
	isDir := len(a.Dirs) > 0
	for i, f := range a.Files {
		p := filepath.Join(dir, f.Path)
		at := p
		if f.Link > 0 {
			at = filepath.Join(dir, fmt.Sprintf("target%d", i))
			to := at
			if f.Link == 1 {
				to, _ = filepath.Rel(filepath.Dir(p), at)
			}
			if err := os.Symlink(to, p); err != nil {
				panic(harnessBug{err.Error()})
			}
			o.count("linked files", 1)
		}
		if err := os.WriteFile(at, f.Text, 0644); err != nil {
			panic(harnessBug{err.Error()})
		}
		in := f.Path == a.Scan
		if isDir {
			in = strings.HasPrefix(f.Path, a.Scan+"/") && strings.HasSuffix(f.Path, ".teal")
		}
		if !in {
			o.count("other files", 1)
			continue
		}
		fs := []string{}
		for _, d := range teal.Process(string(f.Text)).Diagnostics {
			fs = append(fs, fmt.Sprintf("%s %s %d.%d %s", d.Rule(), sevLevel(d.Severity()), d.Line()+1, d.Begin()+1, viaJSON(d.String())))
			o.count("level "+sevLevel(d.Severity()), 1)
		}
		if a.Via != "" {
			p = filepath.Join(dir, a.Via) + strings.TrimPrefix(f.Path, a.Scan)
		}
		want[p] = fs
	}
	if a.Via != "" {
		if err := os.Symlink(a.Scan, filepath.Join(dir, a.Via)); err != nil {
			panic(harnessBug{err.Error()})
		}
		a.Scan = a.Via
		o.count("linked directories", 1)
	}
	scan := a.Scan
	if a.Abs {
		scan = filepath.Join(dir, a.Scan)
	} else if strings.HasPrefix(scan, "-") {
		scan = "./" + scan
	}
	if a.Slash {
		scan += "/"
	}
	cmd := exec.Command(bin, "-path", scan)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if a.Bad {
		if err == nil {
			o.bad("scanning a path that does not exist succeeds: %.200q", out.String())
		}
		o.count("missing paths", 1)
		return
	}
	if err != nil {
		o.bad("scanning %q fails: %v %s", scan, err, firstLines(errb.String(), 8))
		return
	}
	if isDir {
		o.count("directories", 1)
	}
	dec := json.NewDecoder(&out)
	var log sarifLog
	if err := dec.Decode(&log); err != nil {
		o.bad("the report is not JSON: %v", err)
		return
	}
	var rest json.RawMessage
	if dec.Decode(&rest) == nil || len(log.Runs) != 1 || log.Version == nil || *log.Version != "2.1.0" {
		o.bad("not one SARIF 2.1.0 log with one run")
		return
	}
	run := log.Runs[0]
	if run.Artifacts == nil || run.Results == nil {
		o.bad("the report has no list of artifacts or results")
		return
	}
	rules := map[string]bool{}
	var ruleIds []string
	for _, r := range run.Tool.Driver.Rules {
		if rules[r.Id] {
			o.bad("rule %s is declared twice", r.Id)
		}
		rules[r.Id] = true
		ruleIds = append(ruleIds, r.Id)
	}
	var paths []string
	for _, x := range *run.Artifacts {
		u, err := url.Parse(x.Location.Uri)
		if err != nil || u.Scheme != "file" || u.Host != "" || u.RawQuery != "" || u.Fragment != "" {
			o.bad("artifact address %q", x.Location.Uri)
			return
		}
		paths = append(paths, u.Path)
	}
	var wantPaths []string
	for p := range want {
		wantPaths = append(wantPaths, p)
	}
	if !o.sameSet("artifacts", paths, wantPaths) {
		return
	}
	got := map[string][]string{}
	for _, x := range *run.Results {
		if len(x.Locations) != 1 {
			o.bad("a result with %d locations", len(x.Locations))
			return
		}
		l := x.Locations[0].PhysicalLocation
		k := l.ArtifactLocation.Index
		if k == nil || *k < 0 || *k >= len(paths) || (*run.Artifacts)[*k].Location.Uri != l.ArtifactLocation.Uri {
			o.bad("a result at %q does not refer to that artifact by its index", l.ArtifactLocation.Uri)
			return
		}
		if l.Region.StartLine == nil || l.Region.StartColumn == nil {
			o.bad("a result without region")
			return
		}
		if !rules[x.RuleId] || x.RuleIndex != nil && (*x.RuleIndex < 0 || *x.RuleIndex >= len(ruleIds) || ruleIds[*x.RuleIndex] != x.RuleId) {
			o.bad("rule %q of a result is not declared", x.RuleId)
		}
		p := paths[*k]
		got[p] = append(got[p], fmt.Sprintf("%s %s %d.%d %s", x.RuleId, x.Level, *l.Region.StartLine, *l.Region.StartColumn, x.Message.Text))
	}
	for p := range want {
		o.sameSet("findings of "+filepath.Base(p), got[p], want[p])
		o.count("findings", len(want[p]))
	}
	o.count("artifacts", len(paths))
	o.nontrivial = len(paths) > 0 && len(*run.Results) > 0
	o.seen(fmt.Sprint(len(paths), len(*run.Results)))
}
