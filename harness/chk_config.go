package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// J10: what the language server announces, and what its options switch.

type cfgOpts struct {
	Semantic, Named, Decoded, Lens *bool
}

func (c cfgOpts) json() J {
	o := J{}
	put := func(k string, v *bool) {
		if v != nil {
			o[k] = *v
		}
	}
	put("semanticTokens", c.Semantic)
	put("inlayNamed", c.Named)
	put("inlayDecoded", c.Decoded)
	put("lensRefs", c.Lens)
	return o
}

type cfgArgs struct {
	Inits []cfgOpts
	Shape int // how the options are sent: 0 options, 1 none, 2 null, 3 no params at all, 4 with unknown members
	Name  string
}

func randBool(r *Rng) *bool {
	switch r.N(3) {
	case 0:
		return nil
	case 1:
		b := true
		return &b
	}
	b := false
	return &b
}

// truthy: true, a number other than 0, or an object.
func truthy(m json.RawMessage) bool {
	s := strings.TrimSpace(string(m))
	return s != "" && s != "null" && s != "false" && s != "0"
}

var alwaysAnnounced = map[string]string{
	"documentHighlightProvider": "documentHighlight", "documentSymbolProvider": "documentSymbol", "codeActionProvider": "codeAction",
	"renameProvider": "prepareRename", "completionProvider": "completion", "documentFormattingProvider": "formatting",
	"definitionProvider": "definition", "hoverProvider": "hover", "signatureHelpProvider": "signatureHelp",
	"inlineValueProvider": "inlineValue", "codeLensProvider": "codeLens", "diagnosticProvider": "diagnostic",
}

var announcedCommands = []string{"teal.label.create", "teal.label.remove", "teal.value.replace", "teal.line.remove", "teal.version.update"}

// cfgAsk queues every kind of request about a document.
func cfgAsk(s *lspSess, r *Rng, p *rProg, name string) (pos map[string]int, cmds map[string]int) {
	pos, cmds = map[string]int{}, map[string]int{}
	l, c := 0, 0
	if q := cursorPoints(r, p, 1); len(q) > 0 {
		l, c = q[0].l, q[0].c
	}
	for _, m := range docMethods {
		pos[m] = s.ask("textDocument/"+m, tdoc(docUri))
	}
	for _, m := range posMethods {
		pos[m] = s.ask("textDocument/"+m, tpos(docUri, l, c))
	}
	for _, m := range rangeMethods {
		pr := tdoc(docUri)
		pr["range"] = jrange(0, 0, len(p.Lines)+1, 0)
		pr["context"] = J{}
		pos[m] = s.ask("textDocument/"+m, pr)
	}
	rp := tpos(docUri, l, c)
	rp["newName"] = "fresh"
	pos["rename"] = s.ask("textDocument/rename", rp)
	for _, k := range announcedCommands {
		a := J{"uri": docUri, "name": name, "line": 0, "version": 9, "range": jrange(0, 0, 0, 0)}
		cmds[k] = s.ask("workspace/executeCommand", J{"command": k, "arguments": []J{a}})
	}
	return
}

func editsOf(o *Obs, what string, a lspAns) ([]jEdit, bool) {
	if len(a.Error) > 0 {
		o.bad("%s fails: %.200s", what, a.Error)
		return nil, false
	}
	if len(a.Edits) != 1 {
		o.bad("%s: %d edit requests", what, len(a.Edits))
		return nil, false
	}
	var ae struct {
		Edit struct {
			DocumentChanges []struct {
				TextDocument struct{ Uri string }
				Edits        []jEdit
			}
			Changes map[string][]jEdit
		}
	}
	if json.Unmarshal(a.Edits[0], &ae) != nil {
		o.bad("%s: malformed edit request %.200s", what, a.Edits[0])
		return nil, false
	}
	var out []jEdit
	for u, es := range ae.Edit.Changes {
		if u != docUri {
			o.bad("%s edits another document %q", what, u)
		}
		out = append(out, es...)
	}
	for _, d := range ae.Edit.DocumentChanges {
		if d.TextDocument.Uri != docUri {
			o.bad("%s edits another document %q", what, d.TextDocument.Uri)
		}
		out = append(out, d.Edits...)
	}
	return out, true
}

func runConfig(c *Case, o *Obs) {
	var a cfgArgs
	c.args(&a)
	p := refAnalyse(utf8Text(string(c.Src)))
	if p.Syntax || hasQuotedLabel(p) {
		o.count("skipped", 1)
		return
	}
	seed := mix("J10", p.Src)
	// the configuration in force: defaults, then what each initialisation sets
	sem, named, decoded, lens := true, true, true, true
	s := &lspSess{}
	for _, in := range a.Inits {
		set := func(dst *bool, v *bool) {
			if v != nil {
				*dst = *v
			}
		}
		pr := J{"capabilities": J{}, "rootUri": nil}
		switch a.Shape {
		case 0, 4:
			set(&sem, in.Semantic)
			set(&named, in.Named)
			set(&decoded, in.Decoded)
			set(&lens, in.Lens)
			j := in.json()
			if a.Shape == 4 {
				j["other"] = J{"x": 1}
				j["trace"] = "off"
			}
			pr["initializationOptions"] = j
		case 2:
			pr["initializationOptions"] = nil
		}
		if a.Shape == 3 {
			s.ask("initialize", nil)
		} else {
			s.ask("initialize", pr)
		}
	}
	last := s.last
	s.tell("initialized", J{})
	s.tell("textDocument/didOpen", opened(docUri, p.Src))
	pos, cmds := cfgAsk(s, NewRng(seed), p, a.Name)
	bogus := s.ask("workspace/executeCommand", J{"command": "teal.no.such", "arguments": []J{{"uri": docUri}}})
	ans := s.run(o)
	if ans == nil {
		return
	}
	// a server that was told nothing
	d := newSess(nil)
	d.tell("textDocument/didOpen", opened(docUri, p.Src))
	dpos, dcmds := cfgAsk(d, NewRng(seed), p, a.Name)
	def := d.run(o)
	if def == nil {
		return
	}

	var caps struct {
		Capabilities map[string]json.RawMessage
	}
	if json.Unmarshal(ans[last].Result, &caps) != nil || len(caps.Capabilities) == 0 {
		o.bad("initialize is answered with %.200s %.200s", ans[last].Result, ans[last].Error)
		return
	}
	for k, m := range alwaysAnnounced {
		if !truthy(caps.Capabilities[k]) {
			o.bad("%s is not announced (%.100s)", k, caps.Capabilities[k])
		}
		if len(ans[pos[m]].Error) > 0 {
			o.bad("%s is announced, but a request fails: %.200s", m, ans[pos[m]].Error)
		}
		o.count("announced features served", 1)
	}
	var sync int
	var syncObj struct{ Change int }
	if json.Unmarshal(caps.Capabilities["textDocumentSync"], &sync) != nil {
		json.Unmarshal(caps.Capabilities["textDocumentSync"], &syncObj)
		sync = syncObj.Change
	}
	if sync != 1 {
		o.bad("document synchronisation %.100s is announced, the server takes whole texts (1)", caps.Capabilities["textDocumentSync"])
	}
	var ren struct{ PrepareProvider bool }
	json.Unmarshal(caps.Capabilities["renameProvider"], &ren)
	if !ren.PrepareProvider {
		o.bad("the preparation of renames is not announced: %.100s", caps.Capabilities["renameProvider"])
	}
	if got := truthy(caps.Capabilities["inlayHintProvider"]); got != (named || decoded) {
		o.bad("inlay hints announced: %v; named values %v, decoded values %v", got, named, decoded)
	}
	if got := truthy(caps.Capabilities["semanticTokensProvider"]); got != sem {
		o.bad("semantic tokens announced: %v, configured: %v", got, sem)
	}
	if sem {
		var st struct {
			Full   json.RawMessage
			Legend struct{ TokenTypes []string }
		}
		json.Unmarshal(caps.Capabilities["semanticTokensProvider"], &st)
		if !truthy(st.Full) || len(st.Legend.TokenTypes) == 0 {
			o.bad("semantic tokens announced as %.200s", caps.Capabilities["semanticTokensProvider"])
		}
		var data struct{ Data []int64 }
		if json.Unmarshal(ans[pos["semanticTokens/full"]].Result, &data) != nil {
			o.bad("semantic tokens announced, a request gets %.200s", ans[pos["semanticTokens/full"]].Result)
		}
		for i := 3; i < len(data.Data); i += 5 {
			if data.Data[i] < 0 || data.Data[i] >= int64(len(st.Legend.TokenTypes)) {
				o.bad("token type %d is not in the legend %v", data.Data[i], st.Legend.TokenTypes)
				break
			}
		}
	}
	var ec struct{ Commands []string }
	json.Unmarshal(caps.Capabilities["executeCommandProvider"], &ec)
	o.sameSet("commands announced", ec.Commands, announcedCommands)
	for _, k := range announcedCommands {
		es, ok := editsOf(o, k, ans[cmds[k]])
		if !ok {
			return
		}
		o.count("commands served", 1)
		if k == "teal.label.remove" {
			// exactly the definitions of the label are taken away
			var want []string
			var got []string
			for i := range p.Lines {
				for _, ro := range p.Lines[i].Roles {
					if ro.Kind == "label" && p.Lines[i].Inst.Text == a.Name {
						want = append(want, rangeKey(ro.Tok.Line, ro.Tok.B, ro.Tok.E))
					}
				}
			}
			for _, e := range es {
				if e.NewText != "" {
					o.bad("removing label %q inserts %q", a.Name, e.NewText)
				}
				got = append(got, e.Range.String())
			}
			if len(want) > 0 {
				o.count("labels removed", 1)
			}
			if len(got) != len(want) {
				o.bad("removing label %q edits %v, its definitions are at %v", a.Name, got, want)
			}
			if text, err := applyEdits(p.Src, es); err != nil {
				o.bad("removing label %q: %v", a.Name, err)
			} else {
				if !mixedCR(p.Src) {
					checkRemoved(p, text, a.Name, o)
				}
			}
		}
	}
	if len(ans[bogus].Error) == 0 {
		o.bad("an unknown command succeeds")
	}
	// hints and counters follow the options, all else does not
	for m, id := range pos {
		x, y := ans[id], def[dpos[m]]
		if m == "inlayHint" || m == "codeLens" || m == "semanticTokens/full" && !sem {
			continue
		}
		sorted := m != "formatting" && m != "semanticTokens/full" // the order of the others is not promised
		if canonJSON(x.Result, sorted) != canonJSON(y.Result, sorted) || (len(x.Error) > 0) != (len(y.Error) > 0) {
			o.bad("%s depends on the options: %.300s -- by default %.300s", m, x.Result, y.Result)
			return
		}
		o.count("answers compared", 1)
	}
	for k, id := range cmds {
		if strings.Join(rawStrings(ans[id].Edits), "\n") != strings.Join(rawStrings(def[dcmds[k]].Edits), "\n") {
			o.bad("%s depends on the options", k)
		}
	}
	var hs []struct {
		Position jPos
		Label    string
	}
	if json.Unmarshal(ans[pos["inlayHint"]].Result, &hs) != nil {
		o.bad("not a list of hints: %.200s", ans[pos["inlayHint"]].Result)
		return
	}
	var got, want []string
	for _, h := range hs {
		got = append(got, fmt.Sprintf("%d.%d %q", h.Position.Line, h.Position.Character, h.Label))
	}
	nh, dh := refHints(p)
	put := func(hs []rHint, on bool, what string) {
		for _, h := range hs {
			if on {
				want = append(want, fmt.Sprintf("%d.%d %q", h.Tok.Line, h.Tok.E, h.Text))
			}
			o.count(fmt.Sprintf("%s hints, on: %v", what, on), 1)
		}
	}
	put(nh, named, "named")
	put(dh, decoded, "decoded")
	o.sameSet(fmt.Sprintf("inlay hints (named %v, decoded %v)", named, decoded), got, want)
	var lenses, dlenses []json.RawMessage
	if json.Unmarshal(ans[pos["codeLens"]].Result, &lenses) != nil || json.Unmarshal(def[dpos["codeLens"]].Result, &dlenses) != nil {
		o.bad("not a list of reference counters: %.200s", ans[pos["codeLens"]].Result)
		return
	}
	if x, y := canonJSON(ans[pos["codeLens"]].Result, true), canonJSON(def[dpos["codeLens"]].Result, true); lens && x != y || !lens && len(lenses) != 0 {
		o.bad("reference counters with the option %v: %.300s -- by default %.300s", lens, x, y)
	}
	if len(dlenses) > 0 {
		o.count(fmt.Sprintf("counters, on: %v", lens), 1)
	}
	o.nontrivial = true
	o.seen(fmt.Sprintf("%v%v%v%v %d %d", sem, named, decoded, lens, a.Shape, len(a.Inits)))
}

func rawStrings(ms []json.RawMessage) []string {
	var out []string
	for _, m := range ms {
		out = append(out, canonJSON(m, false))
	}
	return out
}

// checkRemoved: the text without the definitions of a label, token for token.
func checkRemoved(p *rProg, text, name string, o *Obs) {
	q := refAnalyse(text)
	if len(q.Lines) != len(p.Lines) && len(q.Lines) != len(p.Lines)-1 { // an empty last line is none
		o.bad("removing label %q: %d lines become %d", name, len(p.Lines), len(q.Lines))
		return
	}
	for i := range p.Lines {
		var x, y []string
		for _, t := range p.Lines[i].All {
			x = append(x, t.Val)
		}
		if i < len(q.Lines) {
			for _, t := range q.Lines[i].All {
				y = append(y, t.Val)
			}
		}
		if p.Lines[i].Inst.Mnem == "label" && p.Lines[i].Inst.Text == name && len(x) > 0 {
			x = x[1:]
		}
		if strings.Join(x, "\x00") != strings.Join(y, "\x00") {
			o.bad("removing label %q changes line %d from %q to %q", name, i, x, y)
			return
		}
	}
}

func init() {
	mk := func(gen func(r *Rng) string) func(r *Rng, i int) *Case {
		return func(r *Rng, i int) *Case {
			src := utf8Text(gen(r))
			a := cfgArgs{Shape: pick(r, []int{0, 0, 0, 0, 0, 1, 2, 3, 4}), Name: "a"}
			for k := pick(r, []int{1, 1, 1, 2}); k > 0; k-- {
				a.Inits = append(a.Inits, cfgOpts{randBool(r), randBool(r), randBool(r), randBool(r)})
			}
			p := refAnalyse(src)
			var names []string
			for j := range p.Lines {
				if p.Lines[j].Inst.Mnem == "label" {
					names = append(names, p.Lines[j].Inst.Text)
				}
			}
			if len(names) > 0 && r.P(9, 10) {
				a.Name = pick(r, names)
			}
			return &Case{Src: []byte(src), Args: mkArgs(a)}
		}
	}
	register(&Check{
		ID:   "J10",
		Rule: "servers are initialised (once or twice) with every combination of the four options, absent, true or false, in several shapes, and asked everything about a document; what is announced is compared with the configuration in force and with what is served, hints and counters with the options, and every other answer with that of a server that was told nothing. Non-trivial: the whole comparison was made; distinct by configuration and document.",
		Gens: []GenSpec{
			{Name: "programs", Quick: 2500, Thorough: 60000, Make: mk(genEditable)},
			{Name: "hints", Quick: 1500, Thorough: 30000, Make: mk(func(r *Rng) string {
				ls := []string{fmt.Sprintf("#pragma version %d", r.Rg(2, 9))}
				for k := r.N(8); k > 0; k-- {
					ls = append(ls, pick(r, []string{"txn 0", "byte 0x414243", "global 1", "gtxn 0 2", "lab:", "b lab", "b other", "other:", "int 1", "pushbytes 0x6869", "txna 26 0", "pop", "asset_holding_get 0", ""}))
				}
				return strings.Join(ls, "\n")
			})},
		},
		Require: []string{"announced features served", "commands served", "answers compared", "named hints, on: true", "named hints, on: false", "decoded hints, on: true", "decoded hints, on: false", "counters, on: true", "counters, on: false", "labels removed"},
		Run:     runConfig,
		Assume:  []string{"nothing is claimed for requests about semantic tokens when they are switched off"},
	})
}
