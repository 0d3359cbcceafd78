#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("T01","Analysing any text, and querying the result anywhere, never crashes or hangs",
  "For every byte string given as a source file, analysing it returns a result in bounded time without crashing. Every query on that result (hover text, argument at a position, value suggestions, symbols and references in a range, inlay hints) returns normally for every line and column, including positions that are negative or past the end of a line or of the file.",
  ["inputs"],"all byte strings as source; all (line, column) positions and ranges, including out-of-range ones",
  "The tests analyse five small well-formed sources and query four in-range positions; a crash needs one unlucky byte sequence or position out of an unbounded set.",
  ["process.go","lexer.go","parser.go","linter.go"],
  [("per-line recover of parse failures","process.go: Process"),("bounds guards of the position queries","process.go: ArgAt, DocAt, InlayHints")],
  ["Process(source) return or panic","result queries at arbitrary positions"])

p("T02","Analysis depends on the source text alone, even when run concurrently",
  "Analysing the same text always gives the same diagnostics (as a set), symbols, references, tokens, instructions and version, whatever was analysed before in the same process and however many analyses, queries, simulations or servers run at the same time on other goroutines. Concurrent use of separate analyses is free of data races.",
  ["schedules","histories","inputs"],"all interleavings of concurrent analyses, queries, optimisations and simulations of separate results; all prior histories in the process",
  "Every test runs one analysis at a time on one goroutine, once.",
  ["process.go","expr.go","linter.go","vm.go","lsp/lsp.go"],
  [("per-call parser and linter contexts; shared tables only read after initialisation","process.go, go_algorand.go, expr.go singletons")],
  ["result of Process compared across runs and goroutines","Go race detector reports"])

p("L01","Tokens cover the source exactly, with exact line and column positions",
  "For every source, the tokens in order, together with the blanks between them, reproduce the source byte for byte: each token's line is the number of line ends (LF, CR or CRLF) before it, and its columns delimit exactly its bytes in that line. Nothing except spaces and tabs lies outside a token, a line break is never inside one, `//` starts a comment wherever a token could start (except right after a `base64`/`b64` keyword), and a quoted string that is not closed on its line is reported as a syntax error on that line while the following lines are still tokenised. Stepping a lexer forward and back any number of times always shows the same tokens, and at the end the same errors.",
  ["inputs"],"all byte strings, in particular mixed line ends, escapes in strings, comments next to operands, non-ASCII bytes, missing final newline",
  "The lexer test compares types and values of 14 strings; it never looks at positions, multi-line sources or malformed strings.",
  ["lexer.go"],[("position bookkeeping when emitting a token","lexer.go: emit, readValue, readComment, readEol")],
  ["result tokens: type, value, line, begin, end"])

p("L02","Each source line yields exactly one instruction entry, for that line",
  "The instruction listing has exactly one entry per source line, in order, and the entry of a line is the instruction, label or directive written on that line (an empty entry for blank, comment-only and rejected lines, including lines whose operands are rejected part-way; a line rejected only for surplus operands keeps its instruction). Adding, removing or corrupting other lines never shifts it.",
  ["inputs","programs"],"all sources, in particular lines with missing, surplus or malformed operands followed by more lines",
  "No test relates the listing to line numbers; debugger breakpoints, stack traces and lint positions all rely on it.",
  ["process.go","vm.go","dbg/dbg.go"],[("one emit per line, empty entry on recovery","process.go: Process")],
  ["Listing entries vs Lines vs source lines"])

p("D01","Diagnostics always point into the text, with a known rule and severity",
  "Every diagnostic names an existing line of the source and a column range that is ordered and lies inside that line's text. Its rule is one of the published rule identifiers (or the syntax/parse pseudo-rules), its severity is error, warning or info, and its message is not empty.",
  ["inputs"],"all sources",
  "Tests look at no diagnostic position at all.",
  ["process.go","linter.go","parser.go","diag.go"],[("diagnostic construction from tokens and lines","process.go: failAt, lint error conversion")],
  ["Diagnostics: line, begin, end, severity, rule, message"])

p("P01","Operands are accepted exactly when well-formed, and keep their value",
  "A line with a known opcode gets no parse error exactly when it carries the number and kinds of operands that the opcode takes: decimal 0..255 for small indexes, -128..127 for frame indexes, 64-bit unsigned integers in any base prefix (and named transaction types and completion actions where constants are allowed), labels, addresses and quoted signatures, with optional operands only where the opcode has them. Missing, surplus, out-of-range or malformed operands always give a parse error on that line, and the recorded instruction carries exactly the values written; unknown opcodes are always errors.",
  ["inputs"],"all opcodes x all operand lists, including boundary numbers and wrong counts",
  "Tests parse a handful of lines; boundary values per opcode and operand position are not sampled.",
  ["process.go","parser.go"],[("per-opcode operand readers and the surplus check","process.go: op* functions, Process"),("numeric readers","parser.go: readUint8, readInt8, readInt, readConstInt")],
  ["PARSE diagnostics per line","listing entry of the line"])

p("P02","Byte constants decode to exactly the bytes they denote",
  "A byte constant in any of its notations (hex, base32 or base64 with a space or parentheses, quoted string with escapes) is recorded as exactly the bytes that notation denotes, in every instruction that takes byte constants. Malformed constants (odd or non-hex digits, bad alphabet or padding, missing parenthesis, bad escapes) are rejected with a parse error.",
  ["inputs"],"all byte strings in all notations, plus malformed variants, alone and in lists",
  "A few fixed literals are exercised by the tests, none with escapes through to the decoded value.",
  ["process.go","go_algorand.go","lexer.go"],[("byte constant parser","process.go: parseBytes"),("string literal and base32 decoding","go_algorand.go: parseStringLiteral, base32DecodeAnyPadding")],
  ["recorded instruction value","PARSE diagnostics"])

p("P03","Opcodes are gated by program version and by execution mode",
  "An opcode is reported as unavailable in the current version exactly when the program's declared version (1 if none is declared above it) is lower than the version that introduced the opcode for the current mode, and the required version offered is that introducing version. It is reported as unavailable in the current mode exactly when that mode (application, or logic signature when declared by the mode comment) does not have it.",
  ["inputs","configurations"],"all opcodes x all versions x both modes",
  "No test checks a version or mode diagnostic.",
  ["process.go","linter.go"],[("minimum version tables and the two availability checks","process.go: minVersion/modeMinVersion declarations, Process")],
  ["LINT0007 / LINT0008 diagnostics","required-version list of the result"])

p("P04","Named fields resolve to the right value and are gated by version and context",
  "A field name is accepted by an opcode exactly when that field exists for that opcode's field group (only array fields where an index operand follows, only settable fields for setting inner transactions) and was introduced no later than the program's version; it then denotes the field's protocol number. The same field written as its decimal number denotes the same instruction.",
  ["inputs","configurations"],"all field-taking opcodes x all field names x all versions",
  "No test uses a field newer than the program version or in the wrong context.",
  ["parser.go","go_algorand.go","process.go"],[("field readers with version checks","parser.go: read*Field"),("field tables","go_algorand.go")],
  ["PARSE diagnostics","listing entry of the line"])

p("P05","A printed listing analyses back to the same program",
  "For every source without syntax or parse errors, printing its instruction listing and analysing the printed text gives a listing with the same instructions and operand values line by line, and the same errors and warnings on the same lines. Printing that second listing gives the same text again.",
  ["programs"],"all error-free sources of application programs (no logic-signature mode comment), every opcode and operand form",
  "No test prints a parsed listing.",
  ["expr.go","compiler.go","process.go"],[("textual form of each instruction","expr.go: String methods"),("listing printer","compiler.go: Listing.String")],
  ["Listing.String() re-analysed"])

p("S01","Label definitions, references and counts match the source exactly",
  "The result lists every label definition once, in order, with its name, exact position, the comment lines collected since the previous label as documentation, and the argument and result counts of a subroutine declaration that follows it (before the next label). It lists every label operand of accepted and rejected branch instructions as a reference at its exact position, the references whose label is defined nowhere as missing, and per label the number of branch operands naming it.",
  ["programs","inputs"],"all programs: duplicated, unused, missing, adjacent and self-referring labels, multi-target branches, labels with unusual characters",
  "Tests look at two programs with two labels.",
  ["process.go","symbols.go"],[("symbol and reference collection","process.go: Process, mustReadLabel, readLabelsArray, emit")],
  ["Symbols, SymbolRefs, MissRefs, RefCounts of the result"])

p("N01","Duplicate, unused and missing labels are reported exactly",
  "A label defined more than once is reported as duplicate at each of its definitions, a label that no branch operand names is reported as unused at each of its definitions (with an offer to remove it), and every branch operand naming an undefined label is reported as missing at its instruction. Nothing else is reported by these three rules, and checking a listing by itself finds the same as analysing its source.",
  ["programs"],"all programs over labels and branches of every kind",
  "One test has one unused label; no program combines the cases.",
  ["linter.go"],[("label rules","linter.go: DuplicateLabelsRule, UnusedLabelsRule, CheckLoopsRule")],
  ["LINT0001, LINT0002, LINT0005 diagnostics; redundant-line list"])

p("N02","Unreachable code, redundant jumps and infinite loops are reported exactly",
  "Exactly the instructions that follow an unconditional jump, return or failure before the next referenced label are reported as unreachable. An unconditional jump is reported as redundant exactly when its target is the next label below it with nothing executable in between; a backward unconditional jump is reported as an infinite loop exactly when, between its nearest preceding target label and itself, nothing returns, fails, leaves a subroutine or branches to a label outside.",
  ["programs"],"all programs over jumps, conditional and multi-way branches, calls, terminators, labels, comments and blank lines",
  "One two-line program is tested for one rule.",
  ["linter.go"],[("control-flow rules","linter.go: OpsAfterUnconditionalBranchRule, CheckBranchJustBeforeLabelRule, CheckLoopsRule, canEscape")],
  ["LINT0003, LINT0004, LINT0005 diagnostics; redundant-line list"])

p("N03","The version directive governs what follows and is only allowed first",
  "The version in force on a line is that of the last valid version directive above it, 1 if there is none, and the result's version is that of the last valid directive. Every version directive that comes after an instruction or after another version directive is reported as misplaced, and no other line is; malformed or unknown directives, and versions outside 1 to 255, are parse errors.",
  ["inputs","programs"],"all placements of directives among instructions, labels, comments and blank lines",
  "No test places a directive anywhere but on the first line.",
  ["process.go","linter.go"],[("directive parser","process.go: mustReadPragma"),("placement rule","linter.go: CheckPragmaRule")],
  ["Version, VersionToken, LINT0006 and PARSE diagnostics"])

p("O01","Optimising a listing never changes what the program does",
  "Executed from its start, an optimised listing performs the same instructions (unconditional jumps apart) with the same operands in the same order as the original along every combination of branch outcomes, including inside subroutines and at their returns. Branches in the optimised listing always refer to labels it defines if they did in the original.",
  ["programs"],"all listings (parsed or built) over labels, jumps, calls, returns and terminators, no label defined twice",
  "Optimisation has no test at all.",
  ["compiler.go"],[("optimiser passes","compiler.go: removeUnused, removeOpsAfterUnconditionalBranch, removeBJustBeforeItsTargetLabel, mergeLabels")],
  ["Listing.Optimize() compared with its input by simulation of control flow"])

p("O02","Optimising a listing removes dead code, idle jumps and unused labels",
  "After optimisation nothing but comments, blank lines and directives stands between an unconditional jump, return or failure and the next label; no unconditional jump is left whose target is the next label below it with nothing executable in between; and no label is left that no instruction of the original listing named, except one that heads a subroutine (followed by proto or retsub). All comments, blank lines and directives are kept, in order.",
  ["programs"],"all listings (parsed or built) over labels, jumps, calls, returns and terminators",
  "Optimisation has no test at all.",
  ["compiler.go"],[("optimiser passes","compiler.go: removeUnused, removeOpsAfterUnconditionalBranch, removeBJustBeforeItsTargetLabel")],
  ["Listing.Optimize() searched for what should be gone"])

p("B01","A program built from the Go builder prints source that means the same",
  "Every program assembled from the package's instruction builders and constructors, including nested blocks, compiles to the instructions given, in order. Printing it gives text that the analyser accepts without parse errors and reads back as the same instructions with the same operand values, for all operand values including strings with quotes, backslashes, newlines and non-ASCII bytes.",
  ["programs"],"all sequences and nestings of builder expressions with all operand values; label names without quotes or blanks, one-line comments, method signatures without quotes or backslashes",
  "No test builds or prints a program.",
  ["expr.go","compiler.go"],[("builder constructors and printers","expr.go"),("program compiler","compiler.go: Program.Compile")],
  ["Program.String() re-analysed"])

p("V01","Simulating an instruction changes the stack as the instruction set defines",
  "Each simulated instruction removes and adds exactly the number and types of stack values that the instruction set defines for it and its operands, leaves everything below untouched and in order, and records stores to scratch slots so that a load of the slot describes the stored value; a constant on the stack shows its value. A stack that is too short or holds a value of the wrong type stops the simulation with an error instead of being accepted.",
  ["programs","inputs"],"all opcodes x operands x typed stacks of any depth up to the machine limit; up to the first error; computed scratch slots only where the slot number is a constant on the stack",
  "The two simulation tests run two programs and check nothing about the stack.",
  ["vm.go","expr.go"],[("per-instruction execution","expr.go: Execute methods"),("stack primitives","vm.go: push, pop, replace, peek, store")],
  ["stack of a branch after each step","simulation error"])

p("V02","Simulation explores every control-flow path, each branch independently",
  "Running a program to the end makes every conditional or multi-way branch continue in one simulated branch per possible outcome, each starting at the right line with its own copy of stack, scratch space, call frames, remaining budget and trace. The set of complete executed paths is exactly the set of paths of the program's control flow within the budget, and what one branch does never changes another.",
  ["programs","schedules"],"all programs over jumps, conditional and multi-way branches, calls and terminators; all orders of stepping and switching between branches",
  "No test observes branches.",
  ["vm.go","expr.go"],[("forking and branch scheduling","vm.go: fork, jump, skipNops, Switch, Step")],
  ["branches of the machine: line, stack, frames, budget, trace"])

p("V03","Simulation charges each instruction's cost and always stays within budget",
  "Every executed instruction lowers its branch's remaining budget by exactly that instruction's cost (at least 1), the budget never becomes negative, and an instruction whose cost exceeds the remaining budget is not executed but ends its branch, while one whose cost fits is executed. Hence every branch of every program, including loops, stops after at most 700 instructions.",
  ["programs"],"all programs, versions and loop structures",
  "No test looks at the budget.",
  ["vm.go","expr.go","go_algorand.go"],[("cost accounting","vm.go: Step"),("cost tables","expr.go: Cost methods")],
  ["budget of a branch before and after each step","number of steps until the end"])

p("V04","Breakpoints stop the simulation exactly where they are set",
  "A breakpoint is confirmed exactly for lines holding an executable instruction, and setting breakpoints replaces the previous set. A run stops exactly when some branch arrives at a line with a breakpoint, before executing it, naming that branch and line; with no such arrival left it runs to the end, and running again continues from where it stopped.",
  ["programs","histories"],"all programs x breakpoint sets x sequences of run, step and breakpoint changes",
  "No test sets a breakpoint.",
  ["vm.go","dbg/dbg.go"],[("breakpoint table and triggering","vm.go: SetBreakpoints, updateBreakpoints, Run")],
  ["confirmed lines; triggered branches; branch lines after a run"])

p("V05","Subroutine calls return to the caller with the declared stack discipline",
  "A call continues at the subroutine's label and its return continues right after the call, at any nesting depth, in every branch. In a subroutine with declared argument and result counts, frame-relative reads and writes address the caller's arguments and the local values, and the return leaves exactly the results in place of the arguments; without a declaration the stack is left as is. The call stack names each level by the label passed last there (a return restores the caller's).",
  ["programs"],"all nestings of calls, branches inside subroutines, stack depths and argument/result counts; declarations at the start of their subroutine, returns inside one",
  "No test calls a subroutine.",
  ["vm.go","expr.go"],[("call frames","vm.go: call, prepare; expr.go: RetSubExpr, FrameDigExpr, FrameBuryExpr")],
  ["branch line, frames and stack after call/return"])

p("J01","The language server answers every request exactly once",
  "Every request with an id gets exactly one response with that id, carrying either a result or an error but not both and not neither, in the order the requests arrived; requests that cannot be served (unknown method or command, missing or malformed parameters, unknown document, after shutdown) get an error response. Each response is written without waiting for further input, whether or not a trace is being written. Notifications get no response, and every message the server writes is well-formed JSON-RPC framed with its exact byte length.",
  ["histories","inputs"],"all sequences of requests and notifications with valid and invalid parameters",
  "The server has no protocol test.",
  ["lsp/lsp.go"],[("dispatch and reply","lsp/lsp.go: handle, reply, write, Run")],
  ["bytes written by the server, parsed by an independent JSON-RPC reader"])

p("J02","The language server survives malformed input and stops cleanly",
  "No sequence of bytes sent to the server crashes it or makes it spin: after a malformed message with intact framing it keeps serving the messages that follow. It stops on the exit notification with status 0 if shutdown was requested before and 1 otherwise, and it stops when its input ends or fails at any byte. The program behaves alike over its standard streams and over a connection it is told to make, with or without a trace file.",
  ["inputs","fault_sequences","crash_points"],"all byte streams, truncations at every byte, failing readers and writers",
  "No test feeds the server.",
  ["lsp/lsp.go","cmd/tealsp/main.go"],[("read loop and message validation","lsp/lsp.go: Run, handle")],
  ["server return, exit code, responses after hostile messages"])

p("J03","The language server always answers from the current text of each document",
  "Every answer about a document is what a fresh server would give for the text of the last open or change notification for that document, whatever other documents were opened, changed or closed and whatever was asked before. After a document is closed it is unknown until opened again.",
  ["histories"],"all interleavings of open, change, close and requests over several documents",
  "No test sends a change notification.",
  ["lsp/lsp.go"],[("document table with cached results","lsp/lsp.go: lspDoc.Update, Results, docs")],
  ["responses of a long-lived server vs. a fresh server"])

p("J04","Diagnostics served to the editor are exactly those of the analysis",
  "A diagnostics request returns one item per diagnostic of the analysis of the document's current text, with the same zero-based line and columns, severity and message, and an empty list for a clean or unknown document.",
  ["inputs","histories"],"all document texts",
  "No test requests diagnostics.",
  ["lsp/lsp.go"],[("diagnostic conversion","lsp/lsp.go: doDiagnostic")],
  ["textDocument/diagnostic responses"])

p("J05","Label navigation and rename touch every occurrence and nothing else",
  "From any position on a label definition or reference, go-to-definition (asked on a reference) returns all definitions of that label, highlighting returns all its definitions and references, and rename returns one edit per definition and reference of that label; applied together, the edits produce the same text with only that name replaced, so the program analyses as before with the label renamed. Elsewhere they return nothing; the outline lists all definitions and the reference counters show the right counts.",
  ["programs","inputs"],"all programs x all cursor positions (byte columns, from a name's first column to the one right after it) x new names; label names without quotes, and other than the encoding keywords base64 and b64 as far as the analysis after a rename is concerned",
  "No test requests navigation or rename.",
  ["lsp/lsp.go","process.go"],[("symbol queries","process.go: SymbolsWithin, SymbolRefsWithin, SymOrRefAt, SymByName"),("edit construction","lsp/lsp.go: rename, prepareRename, definition, documentHighlight, documentSymbol, codeLens")],
  ["LSP responses; text after applying edits"])

p("J06","Semantic highlighting decodes to the source's own tokens",
  "The semantic token stream decodes to tokens in document order that do not overlap, each covering exactly one source token and typed by its role: opcodes, directive words, numbers, strings and named constants, byte-encoding keywords, comments, label definitions and label references. Every accepted token with such a role appears exactly once.",
  ["programs","inputs"],"all programs",
  "One test encodes one empty token list.",
  ["lsp/lsp.go","semantics.go","process.go"],[("token classification","process.go"),("delta encoding","semantics.go: Encode")],
  ["textDocument/semanticTokens/full responses, decoded"])

p("J07","Every offered quick fix repairs its finding and changes nothing else",
  "Each code action offered for a range, when executed and its edits applied to the document, removes the finding it was offered for: a removed redundant line, a newly defined missing label, a version raised to the required one, a number replaced by the name of the same field, or hex bytes replaced by a literal of the same bytes. The rest of the program is unchanged: every other line keeps its instruction and operand values.",
  ["programs","inputs"],"all programs with at most one, well-placed version directive x ranges x offered actions; line ends of one kind",
  "No test requests or applies a code action.",
  ["lsp/lsp.go","process.go","linter.go"],[("code actions and commands","lsp/lsp.go: codeAction, executeCommand"),("inlay hints, redundant lines, required versions","process.go, linter.go")],
  ["workspace/applyEdit requests applied to the text, re-analysed"])

p("J08","Hover, hints and completion agree with what the analyser accepts",
  "Completion at an operand position offers exactly the named values and labels that the analyser accepts there for the program's version, and completion at the start of a line offers exactly the opcodes available in the program's version and mode that start with what is typed. Hover on an opcode or named or numeric field, signature help, and inlay hints for numeric fields and printable hex constants describe exactly that opcode, operand or value; accepting an opcode inserts it with a placeholder for each operand, and the multi-line snippets offered expand to code that analyses without errors.",
  ["programs","inputs","configurations"],"all opcodes, operand positions (on an operand or after the last one), versions and modes; nothing is claimed inside comments",
  "One test looks for one completion item.",
  ["process.go","lsp/lsp.go"],[("position queries","process.go: ArgAt, ArgVals, DocAt, InlayHints"),("completion","lsp/lsp.go: completion, hover, signatureHelp, inlayHint")],
  ["LSP responses; acceptance of each completion by re-analysis"])

p("J09","Formatting a document never changes its program",
  "The edits returned for a formatting request, applied to the document, give a text with the same tokens on the same sequence of non-blank lines, hence the same instructions, operand values and findings. Formatting the result again changes nothing; a document that cannot be formatted gets an error and no edits.",
  ["programs","inputs"],"all documents with closed strings and without blanks other than spaces and tabs inside lines",
  "No test formats a document.",
  ["lsp/lsp.go"],[("line-by-line reformatting","lsp/lsp.go: formatting")],
  ["textDocument/formatting responses applied to the text, tokenised and re-analysed"])

p("J10","The server announces what it serves, and its options switch only what they name",
  "The answer to initialize announces every feature the server has (whole-text synchronisation, diagnostics, symbols, highlights, definitions, renames with preparation, completion, hover, signatures, formatting, code actions, counters, inline values and its five commands, each of which is served); semantic tokens exactly when their option is on, inlay hints exactly when one of their two options is. Named-value hints, decoded-value hints and reference counters are served exactly when their option is on (all are on by default, and an option that is not given keeps its value), and no option changes any other answer. The label-removing command takes away exactly the definitions of the named label.",
  ["configurations","programs"],"all combinations of the four options, given, absent or in odd shapes, once or twice; all documents",
  "No test initialises a server.",
  ["lsp/lsp.go"],[("capabilities and options","lsp/lsp.go: initialize, inlayHint, codeLens, executeCommand")],
  ["initialize responses compared with the answers to every kind of request"])

p("K01","The debug adapter answers every request exactly once and never dies",
  "Every request gets exactly one response with its command, its sequence number echoed and a success flag that is false, with a message, when it could not be served; events and responses carry strictly increasing sequence numbers and exact framing. No request (unknown command, missing arguments, before launch, out-of-range lines, indexes or references, unreadable program) or byte stream crashes or hangs the adapter; it stops when its input ends or fails.",
  ["histories","inputs","fault_sequences"],"all sequences of debug requests with valid and invalid arguments, over programs whose number of paths is bounded; all truncations",
  "The adapter has no test.",
  ["dbg/dbg.go"],[("dispatch, reply, notify","dbg/dbg.go: handle, reply, notify, write, Run")],
  ["bytes written by the adapter, parsed by an independent reader"])

p("K02","The debugger reports exactly the state of the simulated program",
  "After any sequence of launch, breakpoint, step and continue requests, threads, stack frames, scopes and variables (budget, stack from the top, scratch, trace, with paging) equal the state of a simulation of the launched file that received the same commands, with line numbers in the base the client asked for. Each step or continue is followed by one stop event whose reason and thread match that simulation; initialize is followed by one initialized event and launch by the process it started and a stop at its entry.",
  ["histories","programs"],"all programs x all command sequences x line/column bases, one initialize request per session",
  "The adapter has no test.",
  ["dbg/dbg.go","vm.go"],[("state rendering","dbg/dbg.go: threads, stackTrace, scopes, variables")],
  ["debug adapter responses and events vs. a mirror simulation"])

p("R01","The SARIF report lists every finding of every scanned file, and only those",
  "Scanning a file, or a directory tree (all .teal files below it, no others), prints one SARIF log with one artifact per scanned file and one result per diagnostic of its analysis, with the same rule, level and message and the one-based line and column. Each result refers, by address and by index, to the artifact it was found in, and every rule it names is declared.",
  ["inputs","configurations"],"all file trees and file contents",
  "The scanner has no test.",
  ["cmd/tealsarif/main.go","internal/sarif/sarif.go"],[("report construction","cmd/tealsarif/main.go: run")],
  ["stdout of the scanner"])

p("C01","The inspection commands print what the analysis finds, file by file",
  "For every file, the tokenize command prints one line per token with its one-based line and columns, type and text, followed by one line per unclosed string; the lint command prints one line per diagnostic of the analysis with its line, columns, severity name and message; the interpret command runs the simulation of every path and ends normally. All three fail, and print no result, when the file cannot be read.",
  ["inputs","configurations"],"all file contents; for interpret, programs whose simulation has a bounded number of paths",
  "The commands have no test.",
  ["debug/tokenize/main.go","debug/lint/main.go","debug/interpret/main.go","diag.go"],[("printing","debug/tokenize/main.go: run; debug/lint/main.go: main; debug/interpret/main.go: run")],
  ["stdout and exit status of the commands"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
