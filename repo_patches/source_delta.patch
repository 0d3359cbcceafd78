From be1f6fe6168ac322be0a33df5ab085b121e258cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:07 +0000
Subject: [PATCH 01/45] fix: end quoted strings at their closing quote or line
 end

---
 lexer.go   | 15 +++++++++++----
 process.go |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..9591f22 100644
--- a/lexer.go
+++ b/lexer.go
@@ -159,14 +159,21 @@ func (z *Lexer) readValue() {
 	p, n := utf8.DecodeRune(z.Source[z.i:])
 	if p == '"' {
 		z.inc(n)
+
+		escaped := false
 		for {
-			if z.i == len(z.Source) {
+			var c rune
+			if z.i < len(z.Source) {
+				c, n = utf8.DecodeRune(z.Source[z.i:])
+			}
+
+			if z.i == len(z.Source) || c == '\r' || c == '\n' {
 				z.fail("incomplete string")
+				z.emit(TokenValue)
 				return
 			}
 
-			c, n := utf8.DecodeRune(z.Source[z.i:])
-			if c == '"' && p != '\\' {
+			if c == '"' && !escaped {
 				z.inc(n)
 
 				s := string(z.Source[z.p+1 : z.i-1])
@@ -187,7 +194,7 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			escaped = c == '\\' && !escaped
 		}
 	} else {
 		for {
diff --git a/process.go b/process.go
index ca3174a..fd9864e 100644
--- a/process.go
+++ b/process.go
@@ -981,7 +981,7 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e < 1 || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
-- 
2.43.0


From bfdfe8ebab17f4f45fa4070f082e266f2f88b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 02/45] fix: keep one listing entry per line when surplus
 operands are rejected

---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index fd9864e..6625f2f 100644
--- a/process.go
+++ b/process.go
@@ -3179,10 +3179,13 @@ func Process(source string) *ProcessResult {
 		c.line = line
 		c.args = &arguments{ts: l}
 		func() {
+			emitted := len(c.ops)
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) == emitted {
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 7b3c1dadf758b2f2d2ac15bc7f9506fd561d615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:15 +0000
Subject: [PATCH 03/45] fix: position queries outside the text or on odd
 operands no longer panic

---
 process.go | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/process.go b/process.go
index 6625f2f..4e04e7b 100644
--- a/process.go
+++ b/process.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
-	"strconv"
 	"strings"
 	"unicode"
 
@@ -2683,13 +2682,11 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
+	for li, ln := range r.Lines {
+		if li < rg.StartLine() || li > rg.EndLine() {
 			continue
 		}
 
-		ln := r.Lines[li]
-
 		var ok bool
 		var spec opItem
 
@@ -2717,14 +2714,14 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
-				iv, err := strconv.Atoi(tok.v)
+				iv, err := readUint8(tok.v)
 				if err != nil {
 					return
 				}
 
 				arg := spec.Args[idx]
 
-				name := r.ArgFieldName(arg.Type, iv)
+				name := r.ArgFieldName(arg.Type, int(iv))
 
 				if name == "" {
 					return
@@ -2851,11 +2848,14 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
 	ln := r.Lines[l]
+	if len(ln) == 0 {
+		return res, -1, false
+	}
 
 	curr := len(ln) - 1
 
@@ -2905,7 +2905,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
@@ -2938,7 +2938,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2951,7 +2951,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2964,7 +2964,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = txnFieldSpecByField(TxnField(v))
 								if ok {
@@ -2976,7 +2976,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = acctParamsFieldSpecByField(AcctParamsField(v))
 								if ok {
@@ -2988,7 +2988,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = appParamsFieldSpecByField(AppParamsField(v))
 								if ok {
@@ -3001,7 +3001,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetHoldingFieldSpecByField(AssetHoldingField(v))
 								if ok {
@@ -3014,7 +3014,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = assetParamsFieldSpecByField(AssetParamsField(v))
 								if ok {
@@ -3027,7 +3027,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = base64EncodingSpecByField(Base64Encoding(v))
 								if ok {
@@ -3040,7 +3040,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = blockFieldSpecByField(BlockField(v))
 								if ok {
@@ -3053,7 +3053,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = ecdsaCurveSpecByField(EcdsaCurve(v))
 								if ok {
@@ -3066,7 +3066,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = globalFieldSpecByField(GlobalField(v))
 								if ok {
@@ -3079,7 +3079,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = jsonRefSpecByField(JSONRefType(v))
 								if ok {
@@ -3092,7 +3092,7 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 							if ok {
 								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 							}
-							v, err := strconv.Atoi(tok.String())
+							v, err := readUint8(tok.String())
 							if err == nil {
 								spec, ok = vrfStandardSpecByField(VrfStandard(v))
 								if ok {
-- 
2.43.0


From d8fb684821a8422af2df5de42ef1246632331e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:06 +0000
Subject: [PATCH 04/45] fix: record each integer of a constant list once among
 the numbers

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index 4e04e7b..3422ac3 100644
--- a/process.go
+++ b/process.go
@@ -1130,7 +1130,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From 97c53ee18fa6398b1cf25d5c23a0308c1361d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:27 +0000
Subject: [PATCH 05/45] fix: answer every language server request exactly once

---
 lsp/lsp.go | 93 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 71 insertions(+), 22 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..c12476d 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -61,6 +61,8 @@ type lsp struct {
 	docs     map[string]*lspDoc
 	shutdown bool
 
+	replied bool // the current request has been answered
+
 	exit     bool
 	exitCode int
 
@@ -112,19 +114,33 @@ type jsonRpcRequest struct {
 type jsonRpcHeader struct {
 	JsonRpc string `json:"jsonrpc"`
 
-	Id interface{} `json:"id"`
+	Id json.RawMessage `json:"id"`
 
-	Method string `json:"method"`
+	Method string          `json:"method"`
+	Params json.RawMessage `json:"params"`
 
 	Result interface{} `json:"result,omitempty"`
 	Error  interface{} `json:"error,omitempty"`
 }
 
+func isNull(b json.RawMessage) bool {
+	return len(b) == 0 || string(b) == "null"
+}
+
+func (h jsonRpcHeader) isRequest() bool {
+	return h.Method != "" && !isNull(h.Id) && h.Result == nil && h.Error == nil
+}
+
 type jsonRpcResponse struct {
-	JsonRpc string      `json:"jsonrpc"`
-	Result  interface{} `json:"result,omitempty"`
-	Error   interface{} `json:"error,omitempty"`
-	Id      interface{} `json:"id"`
+	JsonRpc string          `json:"jsonrpc"`
+	Result  interface{}     `json:"result"`
+	Id      json.RawMessage `json:"id"`
+}
+
+type jsonRpcErrorResponse struct {
+	JsonRpc string          `json:"jsonrpc"`
+	Error   interface{}     `json:"error"`
+	Id      json.RawMessage `json:"id"`
 }
 
 type lspFullDocumentDiagnosticReport struct {
@@ -311,7 +327,7 @@ type lspDidOpenTextDocument struct {
 }
 
 type lspDidOpenParams struct {
-	TextDocument *lspDidOpenTextDocument `json:"textDocument"`
+	TextDocument lspDidOpenTextDocument `json:"textDocument"`
 }
 
 type lspDidChangeTextDocument struct {
@@ -324,8 +340,8 @@ type lspContentChange struct {
 }
 
 type lspDidChangeParams struct {
-	TextDocument   *lspDidChangeTextDocument `json:"textDocument"`
-	ContentChanges []*lspContentChange       `json:"contentChanges"`
+	TextDocument   lspDidChangeTextDocument `json:"textDocument"`
+	ContentChanges []lspContentChange       `json:"contentChanges"`
 }
 
 type lspDidSaveTextDocument struct {
@@ -333,7 +349,7 @@ type lspDidSaveTextDocument struct {
 }
 
 type lspDidSaveParams struct {
-	TextDocument *lspDidSaveTextDocument `json:"textDocument"`
+	TextDocument lspDidSaveTextDocument `json:"textDocument"`
 }
 
 type lspDocumentSymbolTextDocument struct {
@@ -341,7 +357,7 @@ type lspDocumentSymbolTextDocument struct {
 }
 
 type lspDocumentSymbolParams struct {
-	TextDocument *lspDocumentSymbolTextDocument `json:"textDocument"`
+	TextDocument lspDocumentSymbolTextDocument `json:"textDocument"`
 }
 
 type tealUpdateVersion struct {
@@ -387,7 +403,7 @@ type lspDiagnosticRequestTextDocument struct {
 }
 
 type lspDiagnosticRequestParams struct {
-	TextDocument *lspDiagnosticRequestTextDocument `json:"textDocument"`
+	TextDocument lspDiagnosticRequestTextDocument `json:"textDocument"`
 }
 
 type lspCodeActionTextDocument struct {
@@ -500,7 +516,7 @@ type lspDidCloseTextDocument struct {
 }
 
 type lspDidCloseRequestParams struct {
-	TextDocument *lspDidCloseTextDocument `json:"textDocument"`
+	TextDocument lspDidCloseTextDocument `json:"textDocument"`
 }
 
 type lspPosition struct {
@@ -695,21 +711,29 @@ func readInto(b []byte, v interface{}) error {
 	return nil
 }
 
-func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
-	return l.write(jsonRpcResponse{
+func (l *lsp) reply(id json.RawMessage, response interface{}) error {
+	if isNull(id) {
+		return nil // notifications are not answered
+	}
+
+	l.replied = true
+	return l.write(response)
+}
+
+func (l *lsp) fail(id json.RawMessage, err interface{}) error {
+	return l.reply(id, jsonRpcErrorResponse{
 		JsonRpc: "2.0",
 		Id:      id,
-		Result:  result,
 		Error:   err,
 	})
 }
 
-func (l *lsp) fail(id interface{}, err interface{}) error {
-	return l.reply(id, nil, err)
-}
-
-func (l *lsp) success(id interface{}, result interface{}) error {
-	return l.reply(id, result, nil)
+func (l *lsp) success(id json.RawMessage, result interface{}) error {
+	return l.reply(id, jsonRpcResponse{
+		JsonRpc: "2.0",
+		Id:      id,
+		Result:  result,
+	})
 }
 
 func read[T any](b []byte) (T, error) {
@@ -800,6 +824,14 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 		return nil
 	}
 
+	switch h.Method {
+	case "initialize", "initialized", "shutdown", "exit", "$/cancelRequest":
+	default:
+		if isNull(h.Params) {
+			return errors.New("missing params")
+		}
+	}
+
 	switch h.Method { // notifications
 	case "initialized":
 
@@ -2194,7 +2226,24 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
+			l.replied = false
 			err = l.handle(jh, data)
+
+			if jh.isRequest() && !l.replied {
+				var rerr error
+				if err != nil {
+					rerr = l.fail(jh.Id, lspError{
+						Code:    -32603,
+						Message: err.Error(),
+					})
+				} else {
+					rerr = l.success(jh.Id, nil)
+				}
+				if rerr != nil {
+					return errors.Wrap(rerr, "failed to reply")
+				}
+			}
+
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From 5d9dfdd2f6a8a8ba764b3e6d2c1ce824fa61f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:29 +0000
Subject: [PATCH 06/45] fix: language server stops on failed input and rejects
 bad content lengths

---
 lsp/lsp.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c12476d..f5151af 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2,6 +2,7 @@ package lsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -2198,10 +2199,13 @@ func (l *lsp) Run() (int, error) {
 		l.trace("TEAL LSP exited.")
 	}()
 
-	for !l.exit {
+	done := false
+	for !l.exit && !done {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				done = !errors.As(err, &perr) // the input has ended or failed
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -2212,12 +2216,19 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.Errorf("negative content length: %d", length)
+			}
+
+			var body bytes.Buffer
+			_, err = io.CopyN(&body, l.tp.R, int64(length))
 			if err != nil {
+				done = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
+			data := body.Bytes()
+
 			l.trace(fmt.Sprintf("IN: %s", string(data)))
 
 			var jh jsonRpcHeader
@@ -2253,10 +2264,6 @@ func (l *lsp) Run() (int, error) {
 
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
-
-			if errors.Is(err, io.EOF) {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From 2036192f1c738cf818ef1a4c4ddecaa66a77d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:57 +0000
Subject: [PATCH 07/45] fix: completion request on a negative line no longer
 panics

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index f5151af..8b60aa5 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1413,7 +1413,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			var ln teal.Line
-			if len(res.Lines) > req.Params.Position.Line {
+			if req.Params.Position.Line >= 0 && len(res.Lines) > req.Params.Position.Line {
 				ln = res.Lines[req.Params.Position.Line]
 			}
 
-- 
2.43.0


From ce646adfa4fc4e4f4433d05fdf91b149dd5ef75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 08/45] fix: complete only opcodes available in the program's
 mode

---
 lsp/lsp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 8b60aa5..9bc26e9 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1504,7 +1504,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					min := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						min = info.SigVersion
+					}
+
+					if min > 0 && min <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1524,7 +1529,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", min)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 5f8d71cbce79150b8bc1c803de2ee5be8c1e71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 09/45] fix: escape backslashes when replacing hex bytes with a
 literal

---
 lsp/lsp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9bc26e9..5265abb 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -36,6 +36,8 @@ const (
 	semanticTokenFunction = 8
 )
 
+var literalEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
+
 type lspDoc struct {
 	s   string
 	res *teal.ProcessResult
@@ -1807,7 +1809,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", literalEscaper.Replace(named.Value)),
 							},
 						},
 					},
-- 
2.43.0


From e1bb93e83b3800f77d5522408ae33e32366a75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:04 +0000
Subject: [PATCH 10/45] fix: decode hex hints only for byte constants

---
 process.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/process.go b/process.go
index 3422ac3..d44b8a9 100644
--- a/process.go
+++ b/process.go
@@ -2678,6 +2678,30 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 	return n
 }
 
+// isBytesArg tells whether the token of the line is a byte constant of its own
+func (r ProcessResult) isBytesArg(spec opItem, ln Line, i int) bool {
+	if i == 0 || len(spec.Args) == 0 {
+		return false
+	}
+
+	last := len(spec.Args) - 1
+	idx := i - 1
+	if idx > last && spec.Args[last].Array {
+		idx = last
+	}
+
+	if idx > last || spec.Args[idx].Type != OpArgTypeBytes {
+		return false
+	}
+
+	switch ln[i-1].String() {
+	case "base32", "b32", "base64", "b64":
+		return false
+	}
+
+	return true
+}
+
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
@@ -2737,6 +2761,10 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 					return
 				}
 
+				if !r.isBytesArg(spec, ln, i) {
+					return
+				}
+
 				s := tok.String()
 				if !strings.HasPrefix(s, "0x") {
 					return
-- 
2.43.0


From d03462cd9e01b3d87cef491b135d0a4a7cba14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:07 +0000
Subject: [PATCH 11/45] fix: hint field names only when available in the
 program's version

---
 process.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/process.go b/process.go
index d44b8a9..20ebc82 100644
--- a/process.go
+++ b/process.go
@@ -2665,17 +2665,13 @@ type InlayHint struct {
 }
 
 func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
-	ns, ok := OpValFieldNames[t]
-	if !ok {
-		return ""
-	}
-
-	n, ok := ns[v]
-	if !ok {
-		return ""
+	for _, av := range OpArgVals[t] {
+		if av.Value == uint64(v) && av.Version <= r.Version {
+			return av.Name
+		}
 	}
 
-	return n
+	return ""
 }
 
 // isBytesArg tells whether the token of the line is a byte constant of its own
-- 
2.43.0


From a62c5f12c793143792239cc5a4cf0bec5a2af751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:10 +0000
Subject: [PATCH 12/45] fix: hints and quick fixes cover multi-line ranges

---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 13 +++++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 5265abb..0fb460b 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1737,7 +1737,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1819,7 +1819,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index 20ebc82..9e346ef 100644
--- a/process.go
+++ b/process.go
@@ -2714,7 +2714,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..0d338af 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,19 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Intersects tells whether two ranges of text share a position
+func Intersects(a, b Range) bool {
+	return !endsBefore(a, b) && !endsBefore(b, a)
+}
+
+func endsBefore(a, b Range) bool {
+	if a.EndLine() != b.StartLine() {
+		return a.EndLine() < b.StartLine()
+	}
+
+	return a.EndCharacter() < b.StartCharacter()
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From c54dedb7abce25b44acd52456a6209c2aaf14ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:13 +0000
Subject: [PATCH 13/45] fix: args is a logic signature opcode

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 9e346ef..dd73ec2 100644
--- a/process.go
+++ b/process.go
@@ -2457,8 +2457,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From db82b86fc4130a4477d30ec65b4ccb5e7d9c3511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:17 +0000
Subject: [PATCH 14/45] fix: gitxna rejects group indexes above 255 instead of
 truncating them

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index dd73ec2..063bc61 100644
--- a/process.go
+++ b/process.go
@@ -2398,7 +2398,7 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-- 
2.43.0


From bb547399b4e95b1607cfc71b1afae456d453de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:20 +0000
Subject: [PATCH 15/45] fix: gate array transaction fields by version

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 02396a34176ea84c204e2ef83e915c6d92368643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:30 +0000
Subject: [PATCH 16/45] fix: print replace2, pushints, gtxnas and
 extract_uint64 as they are written

---
 expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 5c90871..d87cabd 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From 84a2a5485ee7e6002dfcaf3da955b1033b303300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:52 +0000
Subject: [PATCH 17/45] fix: print byte constants so that they read back as the
 same bytes

---
 expr.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index d87cabd..bb26685 100644
--- a/expr.go
+++ b/expr.go
@@ -1301,11 +1301,35 @@ type Bytes struct {
 	Format BytesFormat
 }
 
+// quoteBytes writes the value as a string literal
+func quoteBytes(v []byte) string {
+	var b strings.Builder
+
+	b.WriteByte('"')
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c > '~':
+			fmt.Fprintf(&b, "\\x%02x", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+
+	return b.String()
+}
+
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return quoteBytes(e.Value)
 	case BytesBase64:
+		if len(e.Value) == 0 {
+			return "0x"
+		}
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
-- 
2.43.0


From 46ad929257ddb465cd4895152a19c55e2d0a3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:55 +0000
Subject: [PATCH 18/45] fix: record method signatures without their quotes

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 063bc61..aca51bd 100644
--- a/process.go
+++ b/process.go
@@ -987,7 +987,7 @@ func (c *parserContext) mustReadSignature(name string) string {
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return value[b+1 : e]
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 33ba5a21e270197cbaf7b7144b76d67496524181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:58 +0000
Subject: [PATCH 19/45] fix: Cover builds a cover instruction

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index bb26685..f7589dc 100644
--- a/expr.go
+++ b/expr.go
@@ -3868,8 +3868,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 535856d8c59a262423939af7a314594c152065f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:01 +0000
Subject: [PATCH 20/45] fix: compile nested blocks and functions

---
 expr.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expr.go b/expr.go
index f7589dc..4f0929c 100644
--- a/expr.go
+++ b/expr.go
@@ -1211,6 +1211,16 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	return c.compile(ops, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
@@ -1226,6 +1236,24 @@ func (e *FuncExpr) Call(args ...Expr) Expr {
 	return &NestedExpr{Body: exprs}
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	var ops []Op
+
+	if e.Label != nil {
+		ops = append(ops, e.Label)
+	}
+
+	if e.Proto != nil {
+		ops = append(ops, e.Proto)
+	}
+
+	if e.Block != nil {
+		ops = append(ops, e.Block.Compile(c)...)
+	}
+
+	return ops
+}
+
 func (e *FuncExpr) GetLabel() *LabelExpr {
 	return e.Label
 }
-- 
2.43.0


From c73331cf9ad8385b7e77f2ebf15a17b32b0c0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:36 +0000
Subject: [PATCH 21/45] fix: a base64 constant may begin with two slashes

---
 lexer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 9591f22..497a13b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -308,6 +308,17 @@ func (z *Lexer) readEol() {
 	}
 }
 
+// inBase64 tells if the next token is a base64 literal, which may begin with //
+func (z *Lexer) inBase64() bool {
+	if len(z.ts) == 0 {
+		return false
+	}
+
+	p := z.ts[len(z.ts)-1]
+
+	return p.t == TokenValue && (p.v == "base64" || p.v == "b64")
+}
+
 func (z *Lexer) readTokens() {
 	z.skipWhitespace()
 
@@ -319,7 +330,7 @@ func (z *Lexer) readTokens() {
 			nc, _ = utf8.DecodeRune(z.Source[z.i+n:])
 		}
 
-		if c == '/' && nc == '/' {
+		if c == '/' && nc == '/' && !z.inBase64() {
 			z.readComment()
 		} else if c == '\n' || c == '\r' {
 			z.readEol()
-- 
2.43.0


From 2f431197c57dcecd8e938c171bba4e2748821152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:16 +0000
Subject: [PATCH 22/45] fix: simulate the stack effects of addr, b-, b|,
 extract_uint64 and itxna

---
 expr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/expr.go b/expr.go
index 4f0929c..614a2bc 100644
--- a/expr.go
+++ b/expr.go
@@ -1988,6 +1988,14 @@ func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
 	return nil
 }
 
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Extract64Bits = &Extract64BitsExpr{}
 
 type Replace2Expr struct {
@@ -2154,6 +2162,18 @@ func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 type GtxnasExpr struct {
 	Field TxnField
 	Index uint8
@@ -2298,6 +2318,12 @@ func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 type PushBytessExpr struct {
 	Bytess [][]byte
 }
@@ -3263,6 +3289,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3581,6 +3615,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From d1c2870757398cced1da13d01e9f975891e7d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 23/45] fix: simulate bitlen, getbit, setbit, app_opted_in and
 pushints with their operand types

---
 expr.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expr.go b/expr.go
index 614a2bc..bc34875 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -2279,7 +2279,7 @@ type PushIntsExpr struct {
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
 	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+		b.push(VmValue{T: VmTypeUint64})
 	}
 	b.Line++
 	return nil
@@ -3216,7 +3216,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3233,7 +3233,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
@@ -3786,7 +3786,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 2ac9dea3c298076e4977f6a8dd3366d425ab0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 24/45] fix: simulate dup2, bury, dig, dupn and the frame
 opcodes at the right stack positions

---
 expr.go | 12 ++++++------
 vm.go   |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/expr.go b/expr.go
index bc34875..8dc92de 100644
--- a/expr.go
+++ b/expr.go
@@ -1900,7 +1900,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -1935,7 +1935,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
@@ -2538,7 +2538,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2555,7 +2555,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3269,7 +3269,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.peek(int(e.Index))
 	b.push(v)
 	b.Line++
 	return nil
@@ -3436,10 +3436,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
diff --git a/vm.go b/vm.go
index e01389e..677ce31 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -280,7 +280,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From e52a28bb88cfa43e71647d1ad5e60e2581fe3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 25/45] fix: forked simulation branches keep their call frames

---
 vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm.go b/vm.go
index 677ce31..06d0871 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From 3a92d875b89a30f95584044b5925792eb90984ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:50 +0000
Subject: [PATCH 26/45] fix: each simulated branch has its own scratch space

---
 dbg/dbg.go |  4 ++--
 expr.go    |  2 +-
 vm.go      | 23 ++++++++++++-----------
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..1e30967 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -593,7 +593,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 							case 2:
 								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
+								e := len(b.Scratch.Items)
 
 								if vreq.Arguments.Start != nil {
 									s = *vreq.Arguments.Start
@@ -604,7 +604,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index 8dc92de..996e8ed 100644
--- a/expr.go
+++ b/expr.go
@@ -1084,7 +1084,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index 06d0871..011203d 100644
--- a/vm.go
+++ b/vm.go
@@ -206,7 +206,7 @@ func (b *VmBranch) replace(n int, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -250,6 +250,8 @@ type VmBranch struct {
 
 	Stack *vmStack
 
+	Scratch VmScratch
+
 	Frames []VmFrame
 
 	Budget int
@@ -260,14 +262,15 @@ type VmBranch struct {
 
 func (b *VmBranch) fork(target string) {
 	nb := &VmBranch{
-		Id:     b.vm.Id,
-		vm:     b.vm,
-		Line:   b.vm.find(target),
-		Stack:  b.Stack.clone(),
-		Frames: append([]VmFrame{}, b.Frames...),
-		Budget: b.Budget,
-		Name:   target,
-		Trace:  append([]Op{}, b.Trace...),
+		Id:      b.vm.Id,
+		vm:      b.vm,
+		Line:    b.vm.find(target),
+		Stack:   b.Stack.clone(),
+		Scratch: b.Scratch,
+		Frames:  append([]VmFrame{}, b.Frames...),
+		Budget:  b.Budget,
+		Name:    target,
+		Trace:   append([]Op{}, b.Trace...),
 	}
 
 	b.vm.Id++
@@ -304,8 +307,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
-- 
2.43.0


From 2f08712714f66909d8656b99a446201017c5989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:53 +0000
Subject: [PATCH 27/45] fix: loads of a known slot describes the stored value

---
 expr.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 996e8ed..2e753d7 100644
--- a/expr.go
+++ b/expr.go
@@ -3399,8 +3399,14 @@ func (e *LoadsExpr) String() string {
 }
 
 func (e *LoadsExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeUint64)
-	b.push(VmValue{T: VmTypeAny})
+	index := b.pop(VmTypeUint64)
+
+	switch src := index.src.(type) {
+	case vmUint64Const:
+		b.push(VmValue{T: VmTypeAny, src: b.Scratch.Items[src.v]})
+	default:
+		b.push(VmValue{T: VmTypeAny})
+	}
 
 	b.Line++
 	return nil
-- 
2.43.0


From 0add2e45d357d55c6c014d337831e044aaf37abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:57 +0000
Subject: [PATCH 28/45] fix: a simulated return leaves exactly the declared
 results in place of the arguments

---
 expr.go | 17 +++++++----------
 vm.go   |  6 ++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/expr.go b/expr.go
index 2e753d7..dd10d96 100644
--- a/expr.go
+++ b/expr.go
@@ -1699,18 +1699,15 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
-		rs := []VmValue{}
+		if f.clear {
+			is := b.Stack.Items
 
-		for i := uint8(0); i < f.NumReturns; i++ {
-			rs = append(rs, b.pop(VmTypeAny))
-		}
-
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
-		}
+			rs := len(is) - int(f.NumReturns)
+			if rs < f.p {
+				panic(fmt.Sprintf("not enough results - expected: %d, got: %d", f.NumReturns, len(is)-f.p))
+			}
 
-		for i := len(rs) - 1; i >= 0; i-- {
-			b.push(rs[i])
+			b.Stack.Items = append(is[:f.p-int(f.NumArgs)], is[rs:]...)
 		}
 
 		b.Line = f.Return + 1
diff --git a/vm.go b/vm.go
index 011203d..b2233b2 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	clear      bool // proto executed: return clears all but the results
 	Name       string
 }
 
@@ -194,8 +195,13 @@ func (b *VmBranch) push(t VmValue) {
 
 func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
+	if int(a) > f.p {
+		panic(errors.Errorf("not enough arguments - expected: %d, got: %d", a, f.p))
+	}
+
 	f.NumArgs = a
 	f.NumReturns = r
+	f.clear = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-- 
2.43.0


From 529adcbeacc9d6fe20a8181acb79beb599383fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:00 +0000
Subject: [PATCH 29/45] fix: breakpoints on negative lines are not verified
 instead of crashing

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index b2233b2..884da08 100644
--- a/vm.go
+++ b/vm.go
@@ -419,7 +419,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From b0c377ad4b77264a87c9796334e039aa7e504ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:03 +0000
Subject: [PATCH 30/45] fix: the optimiser keeps subroutine returns

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From e4e63ceeb55161da3562bb36c51e56ac6aabc936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:41 +0000
Subject: [PATCH 31/45] fix: debug adapter stops on failed input and rejects
 bad content lengths

---
 dbg/dbg.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1e30967..d5267c1 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -2,6 +2,7 @@ package dbg
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -790,10 +791,13 @@ func (l *dbg) Run() (int, error) {
 		l.trace("TEAL dbg exited.")
 	}()
 
-	for !l.exit {
+	done := false
+	for !l.exit && !done {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				done = !errors.As(err, &perr) // the input has ended or failed
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -804,12 +808,19 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.Errorf("negative content length: %d", length)
+			}
+
+			var body bytes.Buffer
+			_, err = io.CopyN(&body, l.tp.R, int64(length))
 			if err != nil {
+				done = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
+			data := body.Bytes()
+
 			l.trace(fmt.Sprintf("IN: %s", string(data)))
 
 			var jh dapHeader
@@ -828,10 +839,6 @@ func (l *dbg) Run() (int, error) {
 
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
-
-			if errors.Is(err, io.EOF) {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From 7422bca94d1d3b675ee27f1571a7d32211948279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:42 +0000
Subject: [PATCH 32/45] fix: answer every debug adapter request exactly once

---
 dbg/dbg.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index d5267c1..da2a01b 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -26,6 +26,8 @@ type dbg struct {
 
 	shutdown bool
 
+	replied bool // the current request has been answered
+
 	exit     bool
 	exitCode int
 
@@ -86,7 +88,8 @@ type dapHeader struct {
 }
 
 type dapRequestHeader struct {
-	Command string `json:"command"`
+	Command   string          `json:"command"`
+	Arguments json.RawMessage `json:"arguments"`
 }
 
 type dapRequest[T any] struct {
@@ -271,6 +274,7 @@ func readInto(b []byte, v interface{}) error {
 
 func (l *dbg) reply(id int, cmd string, msg string, result interface{}, err interface{}) error {
 	l.id++
+	l.replied = true
 	return l.write(dapResponse{
 		Seq:        l.id,
 		Type:       "response",
@@ -311,6 +315,20 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			return err
 		}
 
+		switch req.Command {
+		case "initialize", "launch", "setBreakpoints", "continue", "next", "variables", "scopes", "stackTrace":
+			if len(req.Arguments) == 0 || string(req.Arguments) == "null" {
+				return errors.New("missing arguments")
+			}
+		}
+
+		switch req.Command {
+		case "pause", "continue", "next":
+			if l.vm == nil {
+				return errors.New("no program launched")
+			}
+		}
+
 		switch req.Command {
 		case "initialize":
 			ireq, err := read[dapInitializeRequest](b)
@@ -735,6 +753,8 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				StackFrames: sf,
 				TotalFrames: one,
 			}, nil)
+		default:
+			return errors.Errorf("unsupported command: %s", req.Command)
 		}
 	}
 	return nil
@@ -829,7 +849,19 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
+			l.replied = false
 			err = l.handle(jh, data)
+
+			if err != nil && jh.Type == "request" && !l.replied {
+				var req dapRequestHeader
+				json.Unmarshal(data, &req) // best effort: the command may be what is malformed
+
+				rerr := l.reply(jh.Seq, req.Command, err.Error(), nil, err)
+				if rerr != nil {
+					return errors.Wrap(rerr, "failed to reply")
+				}
+			}
+
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From 8dbac7ba4c0b05198465c38bbbe3193655922704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:44 +0000
Subject: [PATCH 33/45] fix: page variables and stack frames within bounds and
 count all frames

---
 dbg/dbg.go | 54 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index da2a01b..061fbac 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -263,6 +263,25 @@ type dapExitedEventParams struct {
 	ExitCode int `json:"exitCode"`
 }
 
+// page returns the bounds of the requested part of n items, all if not limited
+func page(n int, start *int, count *int) (int, int) {
+	s := 0
+	if start != nil && *start > 0 {
+		s = *start
+	}
+
+	if s > n {
+		s = n
+	}
+
+	e := n
+	if count != nil && *count > 0 && *count < n-s {
+		e = s + *count
+	}
+
+	return s, e
+}
+
 func readInto(b []byte, v interface{}) error {
 	err := json.Unmarshal(b, &v)
 	if err != nil {
@@ -604,23 +623,17 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								n := len(b.Stack.Items)
+								s, e := page(n, vreq.Arguments.Start, vreq.Arguments.Count)
+
+								for i := n - 1 - s; i >= n-e; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
 									})
 								}
 							case 2:
-								s := 0
-								e := len(b.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := page(len(b.Scratch.Items), vreq.Arguments.Start, vreq.Arguments.Count)
 
 								for i := s; i < e; i++ {
 									v := b.Scratch.Items[i]
@@ -632,16 +645,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := page(len(b.Trace), vreq.Arguments.Start, vreq.Arguments.Count)
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
@@ -746,12 +750,12 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
+			s, e := page(total, sreq.Arguments.StartFrame, sreq.Arguments.Levels)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
-				StackFrames: sf,
-				TotalFrames: one,
+				StackFrames: sf[s:e],
+				TotalFrames: &total,
 			}, nil)
 		default:
 			return errors.Errorf("unsupported command: %s", req.Command)
-- 
2.43.0


From 714de2e0d730f51a5f17c5b1101d540c3e93f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:16 +0000
Subject: [PATCH 34/45] fix: SARIF results refer to the index of their artifact

---
 cmd/tealsarif/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..822ca24 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -119,13 +119,15 @@ func run(a args) error {
 
 		up := u.String()
 
+		index := len(run.Artifacts)
+
 		run.Artifacts = append(run.Artifacts, sarif.Artifact{
 			Location: sarif.Location{
 				Uri: up,
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -137,7 +139,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: index,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From 702161a3a01f1d84e6863bf81bd101b3b8be436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:18 +0000
Subject: [PATCH 35/45] fix: SARIF scan reports an unreadable directory as an
 error

---
 cmd/tealsarif/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 822ca24..842877a 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -85,6 +85,10 @@ func run(a args) error {
 
 	if fi.IsDir() {
 		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+			if err != nil {
+				return err
+			}
+
 			if !d.IsDir() {
 				if filepath.Ext(path) == ".teal" {
 					paths = append(paths, path)
-- 
2.43.0


From 621011343fc708020aabfedd4a3fc07fd5625feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:22 +0000
Subject: [PATCH 36/45] fix: json_ref costs 25 plus 2 per 7 bytes of the
 document, not of the key

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index dd10d96..53592bb 100644
--- a/expr.go
+++ b/expr.go
@@ -2064,11 +2064,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1)
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From a17697255b8e97837cd70dd4a121617f749c7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 37/45] fix: formatting a document with a very long line no
 longer ends the server

---
 lsp/lsp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 0fb460b..9b1088b 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1625,6 +1625,13 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
+			// the formatter ends the process on a line its scanner cannot hold
+			for _, line := range strings.Split(doc.s, "\n") {
+				if len(line) >= bufio.MaxScanTokenSize {
+					return errors.New("line too long to format")
+				}
+			}
+
 			formatted := tealfmt.Format(strings.NewReader(doc.s))
 
 			return l.success(h.Id, []lspTextEdit{
-- 
2.43.0


From a81d6167623ab6680a076fb12f19fd8010c42992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:07 +0000
Subject: [PATCH 38/45] fix: close the bracket of optional operands in full
 signatures

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index aca51bd..8914ed5 100644
--- a/process.go
+++ b/process.go
@@ -1485,6 +1485,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From 059154cf7db8af04e79338735cfc60b90afc703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:10 +0000
Subject: [PATCH 39/45] fix: describe elliptic curve group operands on hover
 like the other fields

---
 process.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/process.go b/process.go
index 8914ed5..d7fa111 100644
--- a/process.go
+++ b/process.go
@@ -3123,6 +3123,19 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
 								}
 							}
+
+						case OpArgTypeEcGroupField:
+							spec, ok := ecGroupSpecByName[tok.String()]
+							if ok {
+								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+							}
+							v, err := readUint8(tok.String())
+							if err == nil {
+								spec, ok = ecGroupSpecByField(EcGroup(v))
+								if ok {
+									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+								}
+							}
 						}
 					}
 				}
-- 
2.43.0


From 0db4fbfffcc376899b95a21314f9b28bb48bc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 40/45] fix: tealdbg writes a debug file only when asked to

---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From 634797bae3998729f56fd987923685e61c915747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:40 +0000
Subject: [PATCH 41/45] fix: reject versions that the version directive cannot
 hold

---
 process.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/process.go b/process.go
index d7fa111..70aa909 100644
--- a/process.go
+++ b/process.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"strings"
 	"unicode"
 
@@ -950,6 +951,10 @@ func (c *parserContext) mustReadPragma(argName string) uint64 {
 			c.failCurr(errors.New("version must be at least 1"))
 		}
 
+		if v > math.MaxUint8 {
+			c.failCurr(errors.New("version must be at most 255"))
+		}
+
 		version = v
 	default:
 		c.failCurr(errors.Errorf("unexpected #pragma: %s", c.args.Text()))
-- 
2.43.0


From ffc4a91336abf5b1c0f5101fb56408702ed0d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:43 +0000
Subject: [PATCH 42/45] fix: name a field by the version in force on its line

---
 process.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 70aa909..2bec250 100644
--- a/process.go
+++ b/process.go
@@ -2671,8 +2671,12 @@ type InlayHint struct {
 }
 
 func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
+	return argFieldName(t, v, r.Version)
+}
+
+func argFieldName(t NewOpArgType, v int, version uint64) string {
 	for _, av := range OpArgVals[t] {
-		if av.Value == uint64(v) && av.Version <= r.Version {
+		if av.Value == uint64(v) && av.Version <= version {
 			return av.Name
 		}
 	}
@@ -2707,7 +2711,15 @@ func (r ProcessResult) isBytesArg(spec opItem, ln Line, i int) bool {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
+	version := uint64(1)
+
 	for li, ln := range r.Lines {
+		if li < len(r.Listing) {
+			if pragma, ok := r.Listing[li].(*PragmaExpr); ok {
+				version = uint64(pragma.Version)
+			}
+		}
+
 		if li < rg.StartLine() || li > rg.EndLine() {
 			continue
 		}
@@ -2746,7 +2758,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 
 				arg := spec.Args[idx]
 
-				name := r.ArgFieldName(arg.Type, int(iv))
+				name := argFieldName(arg.Type, int(iv), version)
 
 				if name == "" {
 					return
-- 
2.43.0


From 1896270cb7269b8353103856089e65eca94d14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 43/45] fix: scan a directory given as a symbolic link

---
 cmd/tealsarif/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 842877a..5083c71 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -84,7 +84,10 @@ func run(a args) error {
 	}
 
 	if fi.IsDir() {
-		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+		// the separator makes the walk enter a path that is a link to a directory
+		root := a.Path + string(filepath.Separator)
+
+		err := filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 5f084f8fe2fa5958db1d5cc2813a7ae332fcec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:37 +0000
Subject: [PATCH 44/45] fix: raise the version directive that governs the
 opcode

---
 lsp/lsp.go | 22 +++++++++++++++++-----
 process.go | 12 +++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9b1088b..447cd8d 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -366,6 +366,7 @@ type lspDocumentSymbolParams struct {
 type tealUpdateVersion struct {
 	Uri     string `json:"uri"`
 	Version uint64 `json:"version"`
+	Line    *int   `json:"line,omitempty"` // line of the opcode that requires the version
 }
 
 type tealReplaceValueCommandArgs struct {
@@ -930,18 +931,27 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				res := doc.Results()
 
+				tok := res.VersionToken
+				if arg.Line != nil {
+					for _, v := range res.Versions {
+						if v.Line == *arg.Line {
+							tok = v.Directive
+						}
+					}
+				}
+
 				var edits []lspTextEdit
 
-				if res.VersionToken != nil {
+				if tok != nil {
 					edits = append(edits, lspTextEdit{
 						Range: lspRange{
 							Start: lspPosition{
-								Line:      res.VersionToken.StartLine(),
-								Character: res.VersionToken.StartCharacter(),
+								Line:      tok.StartLine(),
+								Character: tok.StartCharacter(),
 							},
 							End: lspPosition{
-								Line:      res.VersionToken.EndLine(),
-								Character: res.VersionToken.EndCharacter(),
+								Line:      tok.EndLine(),
+								Character: tok.EndCharacter(),
 							},
 						},
 						NewText: fmt.Sprintf("%d", arg.Version),
@@ -1827,6 +1837,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				kind := "quickfix"
 				for _, v := range res.Versions {
 					if teal.Intersects(req.Params.Range, v) {
+						line := v.Line
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
@@ -1837,6 +1848,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 									tealUpdateVersion{
 										Uri:     req.Params.TextDocument.Uri,
 										Version: v.Version,
+										Line:    &line,
 									},
 								},
 							},
diff --git a/process.go b/process.go
index 2bec250..40d2b47 100644
--- a/process.go
+++ b/process.go
@@ -2534,7 +2534,8 @@ type RequiredVersion struct {
 	Begin int
 	End   int
 
-	Version uint64
+	Version   uint64
+	Directive *Token // version of the last directive above, if any
 }
 
 func (v RequiredVersion) StartLine() int {
@@ -3331,10 +3332,11 @@ func Process(source string) *ProcessResult {
 						var ln Line = c.args.ts
 
 						vers = append(vers, RequiredVersion{
-							Line:    curr.l,
-							Begin:   ln.Begin(),
-							End:     ln.End(),
-							Version: min,
+							Line:      curr.l,
+							Begin:     ln.Begin(),
+							End:       ln.End(),
+							Version:   min,
+							Directive: c.vtok,
 						})
 					}
 
-- 
2.43.0


From 54045be5b123237da7ec8772e34b1809f866eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:39 +0000
Subject: [PATCH 45/45] fix: each definition of a label shows its own
 subroutine declaration

---
 process.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/process.go b/process.go
index 40d2b47..9eb07b1 100644
--- a/process.go
+++ b/process.go
@@ -871,7 +871,7 @@ type parserContext struct {
 	refs []Token
 
 	vtok   *Token
-	protos map[string]*ProtoExpr
+	protos map[*LabelExpr]*ProtoExpr
 	refc   map[string]int
 
 	// current state
@@ -897,7 +897,7 @@ func (c *parserContext) emit(op Op) {
 	switch op := op.(type) {
 	case *ProtoExpr:
 		if c.label != nil {
-			c.protos[c.label.Name] = op
+			c.protos[c.label] = op
 		}
 	case *LabelExpr:
 		c.label = op
@@ -3189,7 +3189,7 @@ func Process(source string) *ProcessResult {
 		version: 1,
 		ops:     []Op{},
 		mode:    ModeApp,
-		protos:  map[string]*ProtoExpr{},
+		protos:  map[*LabelExpr]*ProtoExpr{},
 		refc:    map[string]int{},
 	}
 
@@ -3228,6 +3228,7 @@ func Process(source string) *ProcessResult {
 	var lts []Line
 	var ops []Token
 	var lsyms []*labelSymbol
+	var lbls []*LabelExpr // label of each symbol
 	var vers []RequiredVersion
 
 	for line, l := range lines {
@@ -3278,7 +3279,10 @@ func Process(source string) *ProcessResult {
 					docs: strings.Join(c.comments, "\n"),
 				})
 
-				c.emit(&LabelExpr{Name: name})
+				lbl := &LabelExpr{Name: name}
+				lbls = append(lbls, lbl)
+
+				c.emit(lbl)
 				c.comments = nil
 
 				return
@@ -3385,7 +3389,7 @@ func Process(source string) *ProcessResult {
 
 	for i := 0; i < len(lsyms); i++ {
 		sym := lsyms[i]
-		proto := c.protos[sym.Name()]
+		proto := c.protos[lbls[i]]
 		if proto != nil {
 			sym.sig = fmt.Sprintf("in: %d, out: %d", proto.Args, proto.Results)
 			lsyms[i] = sym
-- 
2.43.0

