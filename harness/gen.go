package main

import (
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/algorand/go-algorand-sdk/types"
)

// Workload generators. Each takes all its randomness from an Rng.

var labelPool = []string{"a", "bb", "main", "loop", "end", "x1", "l_0", "foo-bar", "é", "α:β", "a.b", "b", "int", "ret", "0x00", "9", "lab//x", "A"}

var eols = []string{"\n", "\n", "\n", "\r\n", "\r"}

func genEol(r *Rng, mixed bool) string {
	if mixed {
		return pick(r, eols)
	}
	return "\n"
}

// ---- hostile text

var soupBytes = []byte("\"\"\\\\//  \t\t\n\n\r\r:();;#xX0123456789abcdefgnrt,.=+-|&~!<>éß\x00\xff\x80")

func genBytesSoup(r *Rng) string {
	n := r.Rg(0, 60)
	if r.P(1, 10) {
		n = r.Rg(60, 400)
	}
	b := make([]byte, n)
	for i := range b {
		if r.P(1, 12) {
			b[i] = byte(r.N(256))
		} else {
			b[i] = soupBytes[r.N(len(soupBytes))]
		}
	}
	return string(b)
}

var soupToks = []string{
	`"`, `""`, `"abc"`, `"a\"b"`, `"a\\"`, `"\x41"`, `"\x4"`, `"\q"`, `"unclosed`, `"trail\"`, `"a b"`, `"//"`, `"é"`, "\"\\\\\\\"z\"",
	"//", "// c", "//c d", "//#pragma mode logicsig", "/", "a//b", "base64", "b64", "base32", "b32", "//8=", "AQID", "AEBAGBA", "base64(AQID)", "b32(AEBAGBA=)", "base64(", "b32(x", "0x", "0x0", "0xzz", "0x4142",
	"#pragma", "version", "1", "2", "3", "5", "8", "9", "10", "0", "255", "256", "-1", "-128", "127", "128", "18446744073709551615", "18446744073709551616", "0b11", "0o17", "1_0",
	":", "a:", "main:", "x:y", "a", "main", "::", ";", "int", "byte", "b", "bz", "bnz", "callsub", "retsub", "return", "err", "switch", "match", "proto", "txn", "txna", "gtxn", "gtxns", "Sender", "Accounts", "Fee", "pay", "NoOp", "method", "addr", "pushbytess", "pushints", "intcblock", "bytecblock", "extract", "replace", "global", "load", "store", "+", "==", "\x00", "é", "\xff\xfe",
	"a\u2028b", "\u0085", "a\u00a0", "\u3000x", "a\vb", "\f", "a\u2029", "\ufeff", "\u200b", "\x1c", "\x7f", "a\x1fb", "\xc2", "\xe2\x80", "\U0001f600",
}

func genTokenSoup(r *Rng) string {
	var sb strings.Builder
	n := r.Rg(0, 40)
	if r.P(1, 10) {
		n = r.Rg(40, 200)
	}
	for i := 0; i < n; i++ {
		if r.P(1, 3) {
			sb.WriteString(pick(r, refOpNames))
		} else {
			sb.WriteString(pick(r, soupToks))
		}
		switch r.N(8) {
		case 0, 1:
			sb.WriteString(pick(r, eols))
		case 2:
			sb.WriteString("\t")
		case 3:
			if r.P(1, 2) {
				break
			}
			sb.WriteString("  ")
		default:
			sb.WriteString(" ")
		}
	}
	return sb.String()
}

// ---- operands

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func randBytes(r *Rng, max int) []byte {
	n := r.N(max + 1)
	b := make([]byte, n)
	mode := r.N(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.N(256))
		case 1:
			b[i] = byte(r.Rg(32, 126))
		case 2:
			b[i] = pick(r, []byte{'"', '\\', '\n', '\r', '\t', '/', ' ', 0, 'x', 'n', 255, 0xc3, 0xa9, ':', ')', '('})
		default:
			b[i] = pick(r, []byte("0123456789abcdef"))
		}
	}
	return b
}

// litQuoted writes bytes as a quoted string, choosing escapes freely.
func litQuoted(r *Rng, b []byte) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range b {
		switch {
		case c == '"':
			sb.WriteString(pick(r, []string{`\"`, `\x22`}))
		case c == '\\':
			sb.WriteString(pick(r, []string{`\\`, `\x5c`, `\x5C`}))
		case c == '\n':
			sb.WriteString(pick(r, []string{`\n`, `\x0a`, `\x0A`}))
		case c == '\r':
			sb.WriteString(pick(r, []string{`\r`, `\x0d`}))
		case c == '\t':
			sb.WriteString(pick(r, []string{`\t`, `\x09`, "\t"}))
		case r.P(1, 8) || c < 32:
			fmt.Fprintf(&sb, `\x%02x`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// litBytes returns the tokens of a well-formed byte constant denoting b.
func litBytes(r *Rng, b []byte) []string {
	switch r.N(7) {
	case 0:
		return []string{"0x" + pick(r, []func(string) string{strings.ToLower, strings.ToUpper})(hex.EncodeToString(b))}
	case 1:
		return []string{pick(r, []string{"base64", "b64"}) + "(" + base64.StdEncoding.EncodeToString(b) + ")"}
	case 2:
		return []string{pick(r, []string{"base32", "b32"}) + "(" + enc32(r, b) + ")"}
	case 3:
		if len(b) == 0 {
			return []string{"0x"}
		}
		return []string{pick(r, []string{"base64", "b64"}), base64.StdEncoding.EncodeToString(b)}
	case 4:
		if len(b) == 0 {
			return []string{`""`}
		}
		return []string{pick(r, []string{"base32", "b32"}), enc32(r, b)}
	default:
		return []string{litQuoted(r, b)}
	}
}

func enc32(r *Rng, b []byte) string {
	if r.P(1, 2) {
		return base32.StdEncoding.EncodeToString(b)
	}
	return base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(b)
}

var badBytes = []string{"0x1", "0xzz", "0x123", "0x1g", "0X41", "base64(AQI)", "b64(A===)", "base64(AQID", "b32(1)", "base32(AEB0)", "b32(AE=)", "base32", "b64", `"\q"`, `"\x"`, `"\x4"`, `"\xg1"`, `"a\x4"`, "abc", "'a'", "41", "base64", "base16(41)", "b64(AQ ID)", "hex(41)", "0x 41", `"\x+1"`, "b64(AQID!)", "base64(_-8=)"}

var badInts = []string{"-1", "18446744073709551616", "0x10000000000000000", "1.5", "abc", "0xg", "0b2", "08", "", "+1", "1e3", "٣", "0x", "1__0", "_1", "1_", "0x1_", "0_9", "1_0_", "Pay", "noop", "99999999999999999999999"}
var badU8 = []string{"-1", "256", "0x1", "1000", "a", "1.0", "+1", "65536", "0b1", "257", "1_0", "300", "-0", "511", "99999999999999999999"}
var badI8 = []string{"128", "-129", "0x1", "256", "a", "--1", "255", "1.0", "-200", "1_0"}

func randU64(r *Rng) uint64 {
	switch r.N(6) {
	case 0:
		return uint64(r.N(3))
	case 1:
		return math.MaxUint64 - uint64(r.N(3))
	case 2:
		return uint64(1) << uint(r.N(64))
	case 3:
		return (uint64(1) << uint(r.N(64))) - 1
	case 4:
		return uint64(r.N(1000))
	default:
		return r.U64()
	}
}

func fmtU64(r *Rng, v uint64) string {
	switch r.N(8) {
	case 0:
		return "0x" + strconv.FormatUint(v, 16)
	case 1:
		return "0b" + strconv.FormatUint(v, 2)
	case 2:
		return "0o" + strconv.FormatUint(v, 8)
	case 3:
		return "0X" + strings.ToUpper(strconv.FormatUint(v, 16))
	case 4:
		if v > 0 {
			return "0" + strconv.FormatUint(v, 8)
		}
	}
	return strconv.FormatUint(v, 10)
}

func randAddr(r *Rng) string {
	var a types.Address
	for i := range a {
		a[i] = byte(r.N(256))
	}
	if r.P(1, 4) {
		a = types.Address{}
	}
	return a.String()
}

var sigPool = []string{"add(uint64,uint64)uint64", "a()void", "x", "opt_in(byte[])(uint64,bool)", "é()void", "f(a b)c", "//no", "m():x", `a\nb`, `x\\`, `x\\\\`, `q\"r`, `\"`, `a\\\"b`, "tab\tin", "\x01"}

func randU8(r *Rng) int {
	return pick(r, []int{0, 1, 2, 3, 4, 7, 10, 127, 128, 254, 255, r.N(256)})
}

type opndOpts struct {
	version uint64
	labels  []string
	byNum   bool // fields may be written as numbers
	anyNum  bool // ... of any value 0..255
}

// goodOperand returns the tokens of an acceptable operand.
func goodOperand(r *Rng, a refArg, o opndOpts) []string {
	switch a.Kind {
	case "int":
		if r.P(1, 4) {
			var ns []string
			for n := range refConsts {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			return []string{pick(r, ns)}
		}
		return []string{fmtU64(r, randU64(r))}
	case "u64":
		return []string{fmtU64(r, randU64(r))}
	case "u8":
		return []string{strconv.Itoa(randU8(r))}
	case "i8":
		return []string{strconv.Itoa(pick(r, []int{-128, -127, -1, 0, 1, 126, 127, r.Rg(-128, 127)}))}
	case "label":
		return []string{pick(r, o.labels)}
	case "addr":
		return []string{randAddr(r)}
	case "sig":
		return []string{`"` + pick(r, sigPool) + `"`}
	case "bytes":
		return litBytes(r, randBytes(r, 12))
	}
	fs := availFields(a.Kind, o.version)
	if o.byNum && (r.P(1, 3) || len(fs) == 0) {
		if o.anyNum && r.P(1, 2) || len(fs) == 0 {
			return []string{strconv.Itoa(randU8(r))}
		}
		return []string{strconv.Itoa(pick(r, fs).Value)}
	}
	if len(fs) == 0 {
		return nil
	}
	return []string{pick(r, fs).Name}
}

func availFields(kind string, version uint64) []refField {
	var out []refField
	for _, f := range refFields[kind] {
		if uint64(f.Version) <= version {
			out = append(out, f)
		}
	}
	return out
}

var allFieldNames = func() []string {
	return nil
}()

func anyFieldName(r *Rng) string {
	var ks []string
	for k := range refFields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return pick(r, refFields[pick(r, ks)]).Name
}

// badOperand returns tokens that are mostly not acceptable (the reference decides).
func badOperand(r *Rng, a refArg, o opndOpts) []string {
	switch a.Kind {
	case "int", "u64":
		return []string{nz(pick(r, badInts))}
	case "u8":
		return []string{pick(r, badU8)}
	case "i8":
		return []string{pick(r, badI8)}
	case "label":
		return []string{pick(r, []string{"nowhere", `"q"`, "a:", "-", "//x"})}
	case "addr":
		s := randAddr(r)
		return []string{pick(r, []string{s[:57], s + "A", strings.ToLower(s), "A" + s[1:], "addr", "0x00", `"` + s + `"`})}
	case "sig":
		return []string{pick(r, []string{"a()void", `"`, "'a()'", "\"a", "a\""})}
	case "bytes":
		return []string{pick(r, badBytes)}
	}
	switch r.N(5) {
	case 0:
		return []string{pick(r, badU8)}
	case 1:
		return []string{strings.ToLower(anyFieldName(r))}
	default:
		return []string{anyFieldName(r)}
	}
}

func nz(s string) string {
	if s == "" {
		return "-"
	}
	return s
}

// opLine writes one instruction; corrupt asks for something wrong with its operands.
func opLine(r *Rng, op *refOp, o opndOpts, corrupt bool) string {
	toks := []string{op.Name}
	which := -1
	if corrupt && len(op.Args) > 0 {
		which = r.N(len(op.Args))
	}
	for i, a := range op.Args {
		if a.Optional && i < len(op.Args) && !corrupt && optOmitted(r, op, toks) {
			break
		}
		if a.Array {
			n := r.N(4)
			for k := 0; k < n; k++ {
				if i == which && k == n-1 {
					toks = append(toks, badOperand(r, a, o)...)
				} else {
					toks = append(toks, goodOperand(r, a, o)...)
				}
			}
			continue
		}
		if i == which {
			if r.P(1, 3) {
				break // missing from here on
			}
			toks = append(toks, badOperand(r, a, o)...)
			continue
		}
		aa := a
		if a.Kind == "txn" && i+1 < len(op.Args) && op.Args[i+1].Optional {
			// with an index the field has to be an array field to be printable
		}
		toks = append(toks, goodOperand(r, aa, o)...)
	}
	if corrupt && (len(op.Args) == 0 || r.P(1, 5)) {
		toks = append(toks, pick(r, []string{"1", "a", "0x41", "Sender", `"s"`, "x y z", "\"open"}))
	}
	sep := func() string { return pick(r, []string{" ", " ", " ", "  ", "\t", " \t "}) }
	var sb strings.Builder
	if r.P(1, 6) {
		sb.WriteString(sep())
	}
	for i, t := range toks {
		if i > 0 {
			sb.WriteString(sep())
		}
		sb.WriteString(t)
	}
	switch r.N(12) {
	case 0:
		sb.WriteString(" // note")
	case 1:
		sb.WriteString("\t//")
	case 2:
		sb.WriteString("  ")
	}
	return sb.String()
}

func optOmitted(r *Rng, op *refOp, sofar []string) bool {
	if op.Name == "extract" && len(sofar) == 2 {
		return false
	}
	return r.P(1, 2)
}

// genOpLines: lines of arbitrary opcodes with arbitrary operands under one version.
func genOpLines(r *Rng, n int, corruptPct int) string {
	var sb strings.Builder
	v := uint64(r.Rg(1, 10))
	mixed := r.P(1, 5)
	if r.P(1, 8) {
		sb.WriteString("//#pragma mode logicsig" + genEol(r, mixed))
	}
	if r.P(9, 10) {
		fmt.Fprintf(&sb, "#pragma version %d%s", v, genEol(r, mixed))
	} else {
		v = 1
	}
	o := opndOpts{version: v, labels: labelPool, byNum: true, anyNum: true}
	for i := 0; i < n; i++ {
		switch r.N(14) {
		case 0:
			sb.WriteString(pick(r, labelPool) + ":")
		case 1:
			sb.WriteString(pick(r, []string{"", "  ", "// comment", "//", "\t// x // y", "//#pragma mode logicsig", " // #pragma mode logicsig ", "//#pragma version 3", "#pragma version 7", "#pragma"}))
		case 2:
			sb.WriteString(pick(r, []string{"nosuchop", "Int 1", "int1", "INT", "bb", "txnfoo a b", "+ +", "pushint2"}))
		default:
			sb.WriteString(opLine(r, refOps[pick(r, refOpNames)], o, r.N(100) < corruptPct))
		}
		if i < n-1 || r.P(2, 3) {
			sb.WriteString(genEol(r, mixed))
		}
	}
	return sb.String()
}

// genValid: a source without syntax or parse errors, printable (see P05).
type validOpts struct {
	n          int
	version    uint64
	sig        bool // logic signature
	sloppy     bool // branches to undefined or duplicated labels, opcodes of other versions and modes
	noComments bool
	mixedEol   bool
	onlyNames  bool // fields by name only
}

func genValid(r *Rng, o validOpts) string {
	var sb strings.Builder
	if o.sig {
		sb.WriteString(pick(r, []string{"//#pragma mode logicsig", "// #pragma mode logicsig  "}) + genEol(r, o.mixedEol))
	}
	if !o.noComments && r.P(1, 4) {
		sb.WriteString("// header" + genEol(r, o.mixedEol))
	}
	if o.version != 1 || r.P(1, 2) {
		fmt.Fprintf(&sb, "#pragma version %d%s", o.version, genEol(r, o.mixedEol))
	}
	nl := r.Rg(1, 4)
	perm := append([]string{}, labelPool...)
	for i := range perm {
		j := r.N(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	labels := perm[:nl]
	defined := labels
	if o.sloppy {
		defined = labels[:r.Rg(1, nl)]
	}
	at := map[int][]string{}
	for _, l := range defined {
		k := r.N(o.n + 1)
		at[k] = append(at[k], l)
		if o.sloppy && r.P(1, 8) {
			k := r.N(o.n + 1)
			at[k] = append(at[k], l)
		}
	}
	oo := opndOpts{version: o.version, labels: labels, byNum: !o.onlyNames}
	emitLabels := func(i int) {
		for _, l := range at[i] {
			if !o.noComments && r.P(1, 4) {
				sb.WriteString("// about " + l + genEol(r, o.mixedEol))
			}
			sb.WriteString(l + ":" + pick(r, []string{"", "", " ", " // def"}) + genEol(r, o.mixedEol))
		}
	}
	for i := 0; i < o.n; i++ {
		emitLabels(i)
		if r.P(1, 12) {
			sb.WriteString(genEol(r, o.mixedEol))
		}
		line := ""
		for try := 0; try < 50; try++ {
			op := refOps[pick(r, refOpNames)]
			if r.P(1, 5) {
				op = refOps[pick(r, []string{"b", "bz", "bnz", "callsub", "switch", "match", "retsub", "return", "err", "proto"})]
			}
			intro := op.App
			if o.sig {
				intro = op.Sig
			}
			if !o.sloppy && (intro == 0 || uint64(intro) > o.version) {
				continue
			}
			// fields must exist at this version
			ok := true
			for _, a := range op.Args {
				if _, isF := refFields[a.Kind]; isF && len(availFields(a.Kind, o.version)) == 0 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			line = opLine(r, op, oo, false)
			if (op.Name == "txn" || op.Name == "gtxn" || op.Name == "gtxns") && indexNonArray(line) {
				line = ""
				continue
			}
			if o.noComments {
				if k := strings.Index(line, "//"); k >= 0 && (strings.HasSuffix(line, "// note") || strings.HasSuffix(line, "//")) {
					line = strings.TrimRight(line[:strings.LastIndex(line, "//")], " \t")
				}
			}
			break
		}
		sb.WriteString(line)
		if i < o.n-1 || len(at[o.n]) > 0 || r.P(3, 4) {
			sb.WriteString(genEol(r, o.mixedEol))
		}
	}
	emitLabels(o.n)
	return sb.String()
}

// indexNonArray: "txn F i" with a field that is not an array field.
func indexNonArray(line string) bool {
	p := refAnalyse("#pragma version 255\n" + line)
	if len(p.Lines) < 2 {
		return false
	}
	in := p.Lines[1].Inst
	switch in.Mnem {
	case "txna", "gtxna", "gtxnsa":
		_, ok := refFieldByNum["txna"][int(in.Nums["Field"])]
		return !ok
	}
	return false
}

// ---- control flow programs

type cfOpts struct {
	n        int
	labels   int
	names    []string // the labels, if given
	plain    []string // non-control lines to use
	noise    bool     // comments, blank lines, directives
	dups     bool
	missing  bool
	surplus  bool
	version  int
	switches bool
}

func genControl(r *Rng, o cfOpts) string {
	var sb strings.Builder
	names := o.names
	if names == nil {
		names = []string{"a", "bb", "c1", "dd", "e"}[:o.labels]
		if r.P(1, 4) {
			names = someNames(r, o.labels)
		}
	}
	if o.version > 0 {
		fmt.Fprintf(&sb, "#pragma version %d\n", o.version)
	}
	tgt := func() string {
		if o.missing && r.P(1, 12) {
			return "zz"
		}
		return pick(r, names)
	}
	var lines []string
	for i := 0; i < o.n; i++ {
		switch r.N(16) {
		case 0, 1, 2:
			l := "b " + tgt()
			if o.surplus && r.P(1, 10) {
				l += " " + tgt()
			}
			lines = append(lines, l)
		case 3:
			lines = append(lines, "bz "+tgt())
		case 4:
			lines = append(lines, "bnz "+tgt())
		case 5:
			lines = append(lines, "callsub "+tgt())
		case 6:
			if !o.switches {
				lines = append(lines, "return")
				break
			}
			l := pick(r, []string{"switch", "match"})
			for k := r.N(4); k > 0; k-- {
				l += " " + tgt()
			}
			lines = append(lines, l)
		case 7:
			lines = append(lines, pick(r, []string{"return", "err", "retsub"}))
		case 8, 9, 10:
			if o.dups {
				lines = append(lines, pick(r, names)+":")
			} else {
				lines = append(lines, "@")
			}
		case 11:
			if o.noise {
				lines = append(lines, pick(r, []string{"", "// c", "   ", "#pragma version 8", "bogus", "int", "b", "pop 1"}))
			}
		default:
			lines = append(lines, pick(r, o.plain))
		}
	}
	if !o.dups {
		// each label once, at the marked places or at random
		left := append([]string{}, names...)
		for i := range lines {
			if lines[i] == "@" {
				if len(left) > 0 {
					lines[i] = left[0] + ":"
					left = left[1:]
				} else {
					lines[i] = pick(r, o.plain)
				}
			}
		}
		for _, l := range left {
			if o.missing && r.P(1, 3) {
				continue
			}
			k := r.N(len(lines) + 1)
			lines = append(lines[:k], append([]string{l + ":"}, lines[k:]...)...)
		}
	}
	for i, l := range lines {
		if r.P(1, 10) {
			l = pick(r, []string{" ", "\t"}) + l
		}
		if r.P(1, 12) {
			l += " // t"
		}
		sb.WriteString(l)
		if i < len(lines)-1 || r.P(1, 2) {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

// ---- example files, mutated

var exOnce sync.Once
var exFiles []string

func examples() []string {
	exOnce.Do(func() {
		filepath.Walk("/repo/examples", func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".teal") {
				if b, err := os.ReadFile(p); err == nil && len(b) < 200000 {
					exFiles = append(exFiles, string(b))
				}
			}
			return nil
		})
		if len(exFiles) == 0 {
			exFiles = []string{"#pragma version 8\nmain:\nint 1\nbnz main\nerr\n"}
		}
	})
	return exFiles
}

func genMutated(r *Rng) string {
	ex := pick(r, examples())
	ls := strings.Split(ex, "\n")
	if len(ls) > 80 {
		k := r.N(len(ls) - 60)
		ls = ls[k : k+60]
	}
	ls = append([]string{}, ls...)
	for k := r.N(6); k > 0; k-- {
		i := r.N(len(ls))
		switch r.N(8) {
		case 0:
			ls = append(ls[:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i], append([]string{ls[r.N(len(ls))]}, ls[i:]...)...)
		case 2:
			if len(ls[i]) > 0 {
				j := r.N(len(ls[i]))
				ls[i] = ls[i][:j] + string(soupBytes[r.N(len(soupBytes))]) + ls[i][j:]
			}
		case 3:
			if len(ls[i]) > 0 {
				j := r.N(len(ls[i]))
				ls[i] = ls[i][:j] + ls[i][j+1:]
			}
		case 4:
			ls[i] += " " + pick(r, soupToks)
		case 5:
			ls[i] += "\r"
		case 6:
			ls[i] = pick(r, soupToks) + " " + ls[i]
		case 7:
			f := strings.Fields(ls[i])
			if len(f) > 1 {
				ls[i] = strings.Join(f[:len(f)-1], " ")
			}
		}
		if len(ls) == 0 {
			return ""
		}
	}
	return strings.Join(ls, "\n")
}

// genAny mixes all kinds of text.
func genAny(r *Rng) string {
	switch r.N(8) {
	case 0:
		return genBytesSoup(r)
	case 1, 2:
		return genTokenSoup(r)
	case 3:
		return genMutated(r)
	case 4:
		return genOpLines(r, r.Rg(1, 20), 40)
	case 5:
		return genValid(r, validOpts{n: r.Rg(0, 25), version: uint64(r.Rg(1, 9)), sig: r.P(1, 4), sloppy: r.P(1, 2), mixedEol: r.P(1, 3)})
	case 6:
		return genControl(r, cfOpts{n: r.Rg(1, 25), labels: r.Rg(1, 5), plain: []string{"int 1", "pop", "byte 0x41", "proto 1 2"}, noise: true, dups: r.P(1, 2), missing: true, surplus: true, version: r.N(9), switches: true})
	default:
		return genOpLines(r, r.Rg(1, 6), 70)
	}
}

func srcCase(s string) *Case { return &Case{Src: []byte(s)} }

func gsrc(name string, quick, thorough int, f func(r *Rng) string) GenSpec {
	return GenSpec{Name: name, Quick: quick, Thorough: thorough, Make: func(r *Rng, i int) *Case { return srcCase(f(r)) }}
}
