package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run <property> | worker <property> [trackdir] | replay <file> | list")
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func envSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "run":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(parent(os.Args[2]))
	case "worker":
		ch := checks[os.Args[2]]
		if ch == nil {
			fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
			os.Exit(2)
		}
		rn := &runner{ch: ch, tier: envTier(), seed: envSeed(), verif: verifDir()}
		if len(os.Args) > 3 {
			rn.track = os.Args[3]
		}
		if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			code := rn.run()
			pprof.StopCPUProfile()
			os.Exit(code)
		}
		os.Exit(rn.run())
	case "worker-all": // mutation runs: the given checks in one process, up to the first that fails
		for _, id := range os.Args[2:] {
			rn := &runner{ch: checks[id], tier: "quick", seed: envSeed(), verif: verifDir()}
			fmt.Println("RUN", id)
			if code := rn.run(); code != 0 && code != 3 {
				fmt.Println("FAIL", id, code)
				os.Exit(code)
			}
		}
	case "digest":
		b, _ := io.ReadAll(os.Stdin)
		fmt.Print(digest(teal.Process(string(b))))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		usage()
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var w struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &w); err != nil || w.Case == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	ch := checks[w.Case.Property]
	o := runCase(ch, w.Case)
	for _, p := range o.problems {
		fmt.Println("  problem:", p)
	}
	if len(o.problems) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", w.Case.Property, path)
		return 1
	}
	fmt.Println("no problem on this case")
	return 0
}

// parent runs the worker in its own process, so that a fatal error of the
// code under test (stack overflow, concurrent map access, data race report)
// is observed rather than taking the monitor down with it.
func parent(id string) int {
	if checks[id] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	code, log, out := spawn(id, "")
	done := strings.Contains(out, "OK property=") || strings.Contains(out, "VIOLATION property=")
	if (code == 0 || code == 1) && done {
		return code
	}
	// exit status 0 or 1 without a verdict: the code under test ended the process
	quit := code == 0 || code == 1
	if !quit && !fatalLog(log) {
		fmt.Printf("ERROR: worker ended with status %d\n", code)
		return 2
	}
	// find the case: run again, recording what each goroutine works on
	dir, err := os.MkdirTemp("", "verif-track-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	var cand []json.RawMessage
	if code2, log2, _ := spawn(id, dir); quit || code2 != 0 && code2 != 1 && fatalLog(log2) {
		fs, _ := filepath.Glob(filepath.Join(dir, "*"))
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil {
				cand = append(cand, b)
			}
		}
	}
	tail := log
	if quit {
		tail = fmt.Sprintf("exit status %d\n%s", code, log)
	}
	if i := strings.Index(tail, "WARNING: DATA RACE"); i >= 0 {
		tail = tail[i:]
	} else if i := strings.Index(tail, "fatal error:"); i >= 0 {
		tail = tail[i:]
	} else if i := strings.Index(tail, "panic:"); i >= 0 {
		tail = tail[i:]
	}
	if len(tail) > 6000 {
		tail = tail[:6000]
	}
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0755)
	path := filepath.Join(verifDir(), "replays", id+"-fatal.json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "seed": envSeed(), "tier": envTier(), "log": tail, "cases_in_flight": cand,
	}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	fmt.Printf("  problem: the process died: %s\n", firstLines(tail, 25))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func fatalLog(log string) bool {
	if strings.Contains(log, "harness panic:") || strings.Contains(log, "main.harnessBug") {
		return false
	}
	if strings.Contains(log, "WARNING: DATA RACE") {
		return true
	}
	return (strings.Contains(log, "fatal error:") || strings.Contains(log, "panic:")) && strings.Contains(log, "dragmz/teal")
}

func spawn(id, track string) (int, string, string) {
	self, _ := os.Executable()
	args := []string{"worker", id}
	if track != "" {
		args = append(args, track)
	}
	cmd := exec.Command(self, args...)
	var buf, out bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &out)
	cmd.Stderr = io.MultiWriter(&limited{w: os.Stderr, n: 20000}, &buf)
	if track != "" {
		cmd.Stdout = io.Discard
		cmd.Stderr = &buf
	}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	err := cmd.Run()
	if err == nil {
		return 0, buf.String(), out.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), buf.String(), out.String()
	}
	return 2, err.Error(), ""
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	q := p
	if len(q) > l.n {
		q = q[:l.n]
	}
	l.n -= len(q)
	if len(q) > 0 {
		l.w.Write(q)
	}
	return len(p), nil
}
