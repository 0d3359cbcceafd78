package main

import (
	"fmt"
	"strings"
)

// Large and unusual shapes: long programs, many labels and findings, long
// tokens and lines, long operand lists. Limits hide where inputs are small.

var edgeLens = []int{127, 128, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000}
var hugeLens = []int{8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000}

func edgeLen(r *Rng) int {
	if r.P(1, 6) {
		return pick(r, hugeLens)
	}
	return pick(r, edgeLens)
}

var oddNames = []string{"a", "b", "bb", "c1", "dd", "e", "A", "Ab", "aB", "ab", "abc", "abcd", "loop", "loop2", "loop_2", "Loop", "main", "end", "int", "byte", "callsub", "return", "err", "proto", "switch", "version", "#x", "1", "10", "0x10", "x:y", "x:", "é", "ée", "日本", "l-1", "l.1", "l/1", "l(1)", "a,b", "NoOp", "pay", "Sender", "txn", "~", "$l", "-1", "retsub", "_", "__", "zz9", "main_l1", "main_l10", "main_l11", "'q'", "&amp;", "<l>", "%d", "%s%s", "l\\n", "\u00a0x"}

// someNames returns n different label names.
func someNames(r *Rng, n int) []string {
	var out []string
	seen := map[string]bool{"zz": true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for len(out) < n {
		switch {
		case len(out) < 40 && r.P(2, 3):
			add(pick(r, oddNames))
		case r.P(1, 40):
			add(strings.Repeat(pick(r, []string{"n", "long_", "é"}), r.Rg(20, 120)))
		default:
			add(fmt.Sprintf("%s%d", pick(r, []string{"l", "label_", "main_l"}), r.N(4*n+10)))
		}
	}
	return out
}

const largeKinds = 12

// genLarge: kind i of large source. valid: without syntax and parse errors.
func genLarge(r *Rng, i int, valid bool) string { return genSized(r, i, valid, 1) }

// genSized scales the sizes down by div.
func genSized(r *Rng, i int, valid bool, div int) string {
	v := r.Rg(8, 10)
	head := fmt.Sprintf("#pragma version %d\n", v)
	plain := []string{"int 1", "pop", "byte \"x\"", "dup", "// c", "", "txn Sender", "proto 1 1"}
	switch i % largeKinds {
	case 0: // many labels
		n := r.Rg(200, 1500) / div
		return genControl(r, cfOpts{n: n, names: someNames(r, r.Rg(20, 250)/div+1), plain: plain, noise: !valid, missing: true, surplus: !valid, version: v, switches: true})
	case 1: // few labels, each defined many times
		return genControl(r, cfOpts{n: r.Rg(200, 1000) / div, names: someNames(r, r.Rg(1, 12)), plain: plain, noise: !valid, dups: true, missing: true, surplus: !valid, version: v, switches: true})
	case 2:
		return genValid(r, validOpts{n: r.Rg(200, 1500) / div, version: uint64(v), sloppy: r.P(1, 2), mixedEol: r.P(1, 4)})
	case 3:
		if valid {
			return genValid(r, validOpts{n: r.Rg(100, 600) / div, version: uint64(v), onlyNames: true})
		}
		return genOpLines(r, r.Rg(200, 1500)/div, pick(r, []int{5, 30, 70}))
	case 4: // long tokens and lines
		var sb strings.Builder
		sb.WriteString(head)
		for k := r.Rg(2, 6); k > 0; k-- {
			n := edgeLen(r)
			switch r.N(8) {
			case 0:
				sb.WriteString(strings.Repeat("n", n) + ":\nb " + strings.Repeat("n", n))
			case 1:
				sb.WriteString("byte \"" + strings.Repeat("s", n) + "\"")
			case 2:
				sb.WriteString("byte 0x" + strings.Repeat("4a", n/2))
			case 3:
				sb.WriteString("// " + strings.Repeat("c", n))
			case 4:
				sb.WriteString(strings.Repeat(pick(r, []string{" ", "\t"}), n) + "int 1")
			case 5:
				sb.WriteString("int" + strings.Repeat(" ", n) + "1 // c")
			case 6:
				if valid {
					sb.WriteString("int 0x" + strings.Repeat("0", n) + "1")
				} else {
					sb.WriteString(pick(r, []string{"int ", "", "b a ", "byte \""}) + strings.Repeat("w", n))
				}
			default:
				sb.WriteString("byte b64 " + strings.Repeat("QUJD", n/4))
			}
			sb.WriteString(pick(r, []string{"\n", "\n", "\r\n"}))
			for k := r.N(3); k > 0; k-- {
				sb.WriteString(pick(r, []string{"int 1\n", "b nowhere\n", "x:\n", "err\n"}))
			}
		}
		return sb.String()
	case 5: // very many lines
		var sb strings.Builder
		sb.WriteString(head + "first:\nint 1\n")
		n := pick(r, []int{256, 257, 1000, 4096, 4097, 33000, 65536, 66000})
		if div > 1 {
			n = pick(r, []int{127, 255, 256, 257, 300})
		}
		fill := pick(r, []string{"\n", "// c\n", "int 1\n", "pop\r\n"})
		for k := 0; k < n; k++ {
			if r.P(1, 200) {
				sb.WriteString(pick(r, []string{"b last\n", "bnz first\n", "int 7\n", "mid:\n", "err\n"}))
			} else {
				sb.WriteString(fill)
			}
		}
		sb.WriteString("last:\n// doc\nbz first\nbz nowhere\nunused:\nint 2\n")
		if !valid {
			sb.WriteString("bogus\nint x\nbyte \"open\n")
		}
		return sb.String()
	case 6: // long operand lists
		var sb strings.Builder
		sb.WriteString(head)
		names := someNames(r, r.Rg(3, 300)/div+1)
		for k := r.Rg(1, 5); k > 0; k-- {
			n := pick(r, []int{15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 254, 255, 256, 257, 300, 700}) / div
			op := pick(r, []string{"intcblock", "bytecblock", "pushints", "pushbytess", "switch", "match"})
			sb.WriteString(op)
			for j := 0; j < n; j++ {
				sb.WriteByte(' ')
				switch op {
				case "intcblock", "pushints":
					sb.WriteString(fmtU64(r, randU64(r)))
				case "bytecblock", "pushbytess":
					sb.WriteString(strings.Join(litBytes(r, randBytes(r, 6)), " "))
				default:
					sb.WriteString(pick(r, names))
				}
			}
			sb.WriteString("\n")
		}
		for _, l := range names {
			if r.P(3, 4) {
				sb.WriteString(l + ":\n")
			}
		}
		return sb.String()
	case 7: // long documentation
		var sb strings.Builder
		sb.WriteString(head)
		for k := r.Rg(1, 5); k > 0; k-- {
			for j := r.Rg(5, 120); j > 0; j-- {
				sb.WriteString(pick(r, []string{"// doc line", "//", "// x", "//x // y", "int 1", "", "//\ttab"}) + "\n")
			}
			fmt.Fprintf(&sb, "l%d:\n%s", k, pick(r, []string{"", "proto 3 2\n", "int 1\nproto 1 1\n"}))
		}
		return sb.String()
	case 8: // long loops and long dead ends
		var sb strings.Builder
		sb.WriteString(head)
		for k := r.Rg(1, 4); k > 0; k-- {
			n := pick(r, []int{20, 40, 63, 64, 65, 100, 127, 128, 255, 256, 257, 400, 1000}) / div
			if r.P(1, 2) {
				fmt.Fprintf(&sb, "loop%d:\n", k)
			} else {
				sb.WriteString(pick(r, []string{"err\n", "return\n", fmt.Sprintf("b loop%d\n", k), ""}))
			}
			at := -1
			if r.P(1, 2) {
				at = r.N(n + 1)
			}
			for j := 0; j < n; j++ {
				if j == at {
					sb.WriteString(pick(r, []string{"bnz out", "return", "retsub", "callsub out", "switch out", "err", "in:", "bz in"}) + "\n")
				} else {
					sb.WriteString(pick(r, []string{"int 1", "int 1", "pop", "", "// c"}) + "\n")
				}
			}
			fmt.Fprintf(&sb, "b loop%d\n", k)
		}
		sb.WriteString("out:\nin:\nint 1\n")
		return sb.String()
	case 9: // blanks and comments between a jump and its label
		var sb strings.Builder
		sb.WriteString(head)
		for k := r.Rg(1, 6); k > 0; k-- {
			fmt.Fprintf(&sb, "b t%d\n", k)
			for j := pick(r, []int{0, 1, 9, 10, 11, 16, 32, 100, 256, 300}); j > 0; j-- {
				sb.WriteString(pick(r, []string{"\n", "// c\n", "  \n"}))
			}
			if r.P(1, 5) {
				sb.WriteString(pick(r, []string{"other:\n", "int 1\n"}))
			}
			fmt.Fprintf(&sb, "t%d:\nint 1\n", k)
		}
		return sb.String()
	case 10: // the same finding over and over
		n := r.Rg(50, 400) / div
		l := pick(r, []string{"b nowhere\n", "err\n", "dup:\n", "box_del\n", "b x\nx:\n"})
		if !valid && r.P(1, 2) {
			l = pick(r, []string{"bogus\n", "int\n", "int 1 2\n", "byte \"open\n", "#pragma version 8\n"})
		}
		return "#pragma version 7\n" + strings.Repeat(l, n)
	default:
		if valid {
			return genControl(r, cfOpts{n: r.Rg(50, 300) / div, names: someNames(r, r.Rg(2, 40)), plain: plain, dups: r.P(1, 2), missing: true, version: v, switches: true})
		}
		var sb strings.Builder
		for k := r.Rg(10, 60) / div; k >= 0; k-- {
			sb.WriteString(genTokenSoup(r))
		}
		return sb.String()
	}
}

func large(quick, thorough int) GenSpec {
	return GenSpec{Name: "large", Quick: quick, Thorough: thorough, Make: func(r *Rng, i int) *Case { return srcCase(genLarge(r, i, false)) }}
}

func largeValid(quick, thorough int) GenSpec {
	return GenSpec{Name: "large", Quick: quick, Thorough: thorough, Make: func(r *Rng, i int) *Case { return srcCase(genLarge(r, i, true)) }}
}

// genLayout: lines of very different indentation, with tokens from one to a few
// hundred characters, gaps and trailing comments.
func genLayout(r *Rng) string {
	var sb strings.Builder
	gap := func(min int) {
		n := pick(r, []int{1, 1, 1, 2, 3, 7, 17, 40, 130, 260})
		if r.P(1, 3) {
			n = min
		}
		for ; n > 0; n-- {
			sb.WriteByte("    \t"[r.N(5)])
		}
	}
	long := func(c string) string {
		return strings.Repeat(c, pick(r, []int{1, 2, 5, 20, 39, 41, 60, 127, 128, 255, 256, 300}))
	}
	names := []string{"l", "top", long("n"), long("ab_")}
	eol := pick(r, eols)
	if r.P(2, 3) {
		sb.WriteString("#pragma version 9" + eol)
	}
	for k := r.Rg(2, 14); k > 0; k-- {
		if r.P(2, 3) {
			gap(0)
		}
		switch r.N(9) {
		case 0:
			sb.WriteString(pick(r, names) + ":")
		case 1:
			sb.WriteString(pick(r, []string{"b", "bz", "callsub"}))
			gap(1)
			sb.WriteString(pick(r, names))
		case 2:
			sb.WriteString("byte")
			gap(1)
			sb.WriteString(pick(r, []string{"\"" + long("s") + "\"", "0x" + long("4a"), "\"a b\""}))
		case 3:
			sb.WriteString("switch")
			for j := r.Rg(1, 4); j > 0; j-- {
				gap(1)
				sb.WriteString(pick(r, names))
			}
		case 4:
			sb.WriteString("int")
			gap(1)
			sb.WriteString(pick(r, []string{"1", "pay", "18446744073709551615", "0x1", "NoOp"}))
		case 5:
			sb.WriteString("txn")
			gap(1)
			sb.WriteString(pick(r, []string{"Sender", "ConfigAssetDecimals", "7"}))
		case 6:
			sb.WriteString("// " + long("c"))
		case 7:
			sb.WriteString("pushints")
			for j := r.Rg(1, 12); j > 0; j-- {
				gap(1)
				sb.WriteString(pick(r, []string{"1", "22", "65536"}))
			}
		}
		if r.P(1, 4) {
			gap(1)
			sb.WriteString("//" + long("d"))
		}
		sb.WriteString(eol)
	}
	return sb.String()
}
