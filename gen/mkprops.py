#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (authoring helper; not part of any check)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))

p("C01","Tokenising is total, exact and lossless",
"For every sequence of bytes, tokenising terminates without panicking and yields words, comments and line ends in source order, where each token's line and byte columns delimit exactly its source text and only spaces and tabs lie outside tokens (apart from a literal left open at the very end of the text). Spaces, tabs and line ends (LF, CR LF or a lone CR) separate words, `//` at the start of a word starts a comment that runs to the end of the line, and a double-quoted literal is one token whose backslash escapes may contain quotes and backslashes. The only error is a literal that is not closed on its line, reported at the end of that line, and tokenising continues with the next line. A reader that steps back meets the same tokens again.",
["inputs"],"all byte strings, including invalid UTF-8, mixed line ends, unbalanced quotes and escapes",
"The repository's tests sample a handful of well-formed sources; an off-by-one column, a lost character or a swallowed line shows only for particular combinations of quotes, escapes, comments and line ends.",
["lexer.go"],[("Lexer state machine","lexer.go: Lexer.Scan, readTokens, readValue, readComment, readEol"),("positions","lexer.go: Lexer.emit, inc")],
"tokens and errors produced by scanning a source")

p("C02","Analysis is total, deterministic and line-preserving",
"For every source text, analysing it terminates without panicking and yields exactly one listing entry per source line, in order (none for a last line that holds nothing but blanks), with blank and comment lines (and lines in error that produced no instruction) as empty entries. Every diagnostic lies on an existing source line, within that line's columns, and carries one of the published rule names. Analysing the same text again, before or after any other text, gives the same result.",
["inputs","histories"],"all source texts, and all orders in which texts are analysed in one process",
"Crashes and shifted listings need rare combinations (an error after an instruction was already accepted, malformed last lines); tests assert on a few well-formed programs only and never on repeated analysis.",
["process.go","parser.go","linter.go"],[("per-line recovery and listing","process.go: Process"),("diagnostic placement","process.go: failAt, Process (lint error mapping)")],
"result of analysing a source: listing length, diagnostics, repeated runs")

p("C03","Instruction operands are accepted exactly by their grammar",
"A line whose first word is a known instruction is accepted exactly when the words after it match that instruction's operands: their number, their kinds (64-bit and 8-bit integers in range, byte strings in every documented notation, named or numbered fields, labels, addresses, method signatures) and their optional or repeated parts; accepted operands keep the written value. Otherwise exactly one parse error is reported for the line, at the offending word, at the first surplus word, or at the last word when one is missing. An unknown instruction or pragma is a parse error at that word, and an error on one line never changes how the other lines' operands are read.",
["inputs","programs"],"all instruction lines over all instructions and operand words, at every program version, alone and inside larger programs",
"About 170 instructions with over twenty operand kinds, each with boundary values and several notations, form a space that sampled tests cannot cover.",
["process.go","parser.go","go_algorand.go"],[("operand readers","process.go: parserContext.mustRead*/maybeRead*/read*Array, parseBytes"),("field and integer parsing","parser.go: read*Field, readInt, readUint8, readInt8"),("instruction table","process.go: opsList and op* functions")],
"parse diagnostics and the listing of an analysed program")

p("C04","Version and mode requirements are enforced exactly",
"The program version is the one given by the version pragma in force at a line (1 if there is none) and the mode is application unless a logicsig mode comment precedes the line. An instruction not available in the mode is reported by the mode rule, one needing a higher version is reported by the version rule together with the version it requires, both at the instruction's word, and nothing else is reported by these rules. A field given by name is rejected exactly when the field does not exist in that context (array fields, inner-transaction fields) or needs a higher version than the program's.",
["programs","configurations"],"all programs, over every instruction, every named field, every version and both modes",
"The requirement is a table of hundreds of (instruction or field, version, mode) combinations; the tests touch very few of them.",
["process.go","parser.go","go_algorand.go"],[("version and mode gate","process.go: Process (LINT0007, LINT0008, RequiredVersion)"),("field gates","parser.go: readTxnField and siblings"),("tables","process.go: minVersion/modeMinVersion calls; go_algorand.go field specs")],
"LINT0007/LINT0008 diagnostics, required versions, field parse errors")

p("C05","Labels, references and their counts are reported exactly",
"For every program the reported symbols are exactly its label definitions in source order with their position, the preceding comment lines since the previous label as documentation, and the argument and result counts declared by the routine prototype that follows the label. The reported references are exactly the label operands of branching instructions with their positions, the missing references are those without a definition, and the reference count of a name is the number of label operands of accepted instructions that name it.",
["programs"],"all programs, including duplicate, unused, missing and oddly named labels, comments between and around them, and lines in error",
"Which comment, prototype or reference belongs to which label depends on the whole preceding program, not on single lines that tests sample.",
["process.go","symbols.go"],[("symbol collection","process.go: Process (label handling, lsyms, mrefs)"),("reference counting","process.go: parserContext.emit, mustReadLabel, readLabelsArray")],
"symbols, references, missing references and reference counts of an analysed program")

p("C06","Label lint rules are sound and complete",
"For every program, each definition of a label defined more than once is reported as duplicate, each definition of a label that no instruction refers to is reported as unused and offered for removal, and each instruction referring to an undefined label is reported once per such operand. No other line is reported by these rules, and each report covers the line's words with the documented rule and severity.",
["programs"],"all programs over labels, branches with one or many targets, and other instructions",
"Soundness and completeness are statements about every possible arrangement of definitions and uses.",
["linter.go","process.go"],[("rules","linter.go: DuplicateLabelsRule, UnusedLabelsRule, CheckLoopsRule (missing labels)"),("reporting","process.go: Process")],
"lint diagnostics and redundant lines of an analysed program")

p("C07","Control-flow lint rules are sound and complete",
"For every program: an instruction is reported unreachable exactly when it lies after an unconditional branch, return or err with no referenced label in between; an unconditional branch is reported redundant (and offered for removal) exactly when its target is the next label below it and only blank, comment and pragma lines lie between; an infinite loop is reported exactly for a branch back to its label when nothing between them refers to a label outside that range and nothing there terminates. A version pragma is reported exactly when an instruction or another pragma precedes it.",
["programs"],"all programs as arrangements of labels, branches, subroutine calls, terminators, pragmas, comments and plain instructions",
"The rules relate arbitrary pairs of lines, so their correctness is a property of all program shapes; no test exercises them.",
["linter.go","process.go"],[("rules","linter.go: OpsAfterUnconditionalBranchRule, CheckBranchJustBeforeLabelRule, CheckLoopsRule, CheckPragmaRule"),("escape analysis","linter.go: Linter.canEscape")],
"lint diagnostics and redundant lines of an analysed program")

p("C08","Printing a program preserves it",
"For every program that is accepted without parse errors and whose fields exist in its version and context, printing its listing and analysing the printed text yields the same instructions with the same operand values on the same lines, again without parse errors. Printing is stable: printing the re-analysed program gives the same text.",
["programs"],"all accepted programs, over every instruction, operand kind and operand value",
"A misspelt or reordered operand shows only when the printed form of that particular instruction and value is read back; no test round-trips.",
["expr.go","compiler.go","process.go"],[("printers","expr.go: String methods of every instruction"),("listing text","compiler.go: Listing.String")],
"text printed from an analysed program, re-analysed")

p("C09","Optimising a program preserves its behaviour",
"For every accepted program without duplicate or missing labels, the optimised listing has exactly the same possible executions as the original: the same sequences of executed instructions from entry, through conditional and multi-way branches, subroutine calls and returns, up to unconditional branches that have no effect. Optimising never introduces unresolved label references, keeps the relative order of what it keeps and the version declared ahead of the first instruction, and does not modify the listing it was given.",
["programs"],"all programs with labels, branches, subroutine calls and returns",
"Behaviour preservation quantifies over every program and every path through it; the optimiser has no behavioural test.",
["compiler.go"],[("passes","compiler.go: removeUnused, removeOpsAfterUnconditionalBranch, removeBJustBeforeItsTargetLabel, mergeLabels"),("pipeline","compiler.go: Listing.Optimize")],
"optimised listing compared with the original")

p("C10","Each instruction has its documented effect on the typed stack",
"When the debugger's machine executes an instruction, it takes and leaves exactly the operands, in number, order and type (integer, bytes or either), that the language specification documents for that instruction and its immediate field, including the stack-shuffling, frame and multi-value instructions; known constants keep their value, also through scratch space, and nothing else is shown as one. An instruction executed on too few operands or on an operand of the wrong type stops the machine with an error instead of continuing.",
["programs"],"all instructions and immediates, over all stack contents and depths",
"There are about 170 instructions, each with its own effect per field and per stack shape; the tests execute two.",
["expr.go","vm.go"],[("effects","expr.go: Execute methods"),("typed stack","vm.go: VmBranch.push, pop, peek, replace")],
"stack contents (depth, types, constants) and error state after each step")

p("C11","The machine explores every control-flow path, independently",
"From entry the machine follows exactly the program's control flow: fall-through, unconditional branch, subroutine call and return to the line after the call, with one further branch of execution started for every target of a conditional or multi-way branch while the current one falls through, each keeping the position, operand stack, call frames, remaining budget and history of the branch it came from. Branches of execution never affect each other's stack, frames, budget or history. A branch ends exactly at a terminating instruction, at the end of the program, at an undefined label or when its budget is exhausted, and the machine then goes on with the other branches.",
["programs","schedules"],"all programs and all interleavings of branch switching, stepping and running",
"Sharing or losing state between branches shows only for particular sequences of forks, calls and steps.",
["vm.go","expr.go"],[("branching","vm.go: VmBranch.fork, jump, call, exit; expr.go: branch instructions, callsub, retsub, proto"),("scheduling","vm.go: Vm.skipNops, Switch, Step")],
"branches with position, name, stack, frames, budget and trace after each step")

p("C12","Execution cost and budget are exact, so execution terminates",
"Every branch of execution starts from a budget of 700 and each executed instruction reduces it by exactly the cost documented for that instruction at the program's version, including field-dependent costs and costs that depend on the length of a known operand (1 when the length is not known). An instruction whose cost exceeds the remaining budget is not executed and ends that branch, so no branch's budget ever goes negative, no branch executes more than 700 instructions, and every single step, forks included, terminates.",
["programs"],"all programs, over all instructions, versions, operand lengths and loops",
"Costs are a table over instructions, versions, curves and operand lengths; exhaustion happens only after particular long executions.",
["vm.go","expr.go"],[("costs","expr.go: Cost methods; go_algorand.go cost tables"),("budget","vm.go: Vm.Step")],
"budget and history of every branch after each step")

p("C13","Breakpoints and running are exact",
"A breakpoint is accepted exactly on lines holding an instruction. Running executes exactly the instructions that single-stepping would, in the same order, and stops after the first step that brings some branch of execution onto a line with a breakpoint, reporting those branches and lines, or when an error occurs or nothing is left to execute. Setting breakpoints replaces the previous ones and changes nothing else.",
["programs","schedules"],"all programs, breakpoint sets and interleavings of set, step, switch and run",
"Missed or spurious stops depend on where labels, comments and forks lie relative to breakpoints.",
["vm.go"],[("breakpoints","vm.go: Vm.SetBreakpoints, updateBreakpoints"),("run loop","vm.go: Vm.Run, Step")],
"triggered breakpoints and machine state after each command")

p("C14","The language server answers every request once and never dies",
"For every sequence of well-framed messages, each request receives exactly one response carrying its id, in order, and notifications and responses receive none; unknown methods, unknown documents, malformed or missing parameters and requests after shutdown receive an error response. No message content terminates the server; only exit or the end of input does, with exit status 0 after a shutdown request or at end of input and 1 otherwise; a header without a usable length is skipped. Every message written is correctly framed.",
["histories","inputs"],"all sequences of requests, notifications, responses and malformed messages",
"Protocol obligations range over histories of messages; no test drives the server.",
["lsp/lsp.go","cmd/tealsp/main.go"],[("dispatch","lsp/lsp.go: lsp.handle"),("framing and loop","lsp/lsp.go: lsp.Run, write, reply, request")],
"frames written by the server for the frames it reads")

p("C15","Answers always reflect the latest text of the right document",
"Every answer about a document is computed from the text most recently opened or changed for that document's identifier, as if the server had been started afresh with that text, regardless of earlier texts, of requests made in between, and of operations on other documents. Changes to a document that is not open and all requests for a closed document fail (diagnostics report nothing) and have no effect on any document.",
["histories"],"all interleavings of open, change, save, close and requests over several documents",
"Stale caches and cross-document leaks appear only after particular histories.",
["lsp/lsp.go","lsp/doc.go"],[("document store and cached analysis","lsp/lsp.go: lspDoc.Update, Results, handle (didOpen, didChange, didClose), prepare")],
"responses in a history compared with those of a fresh server")

p("C16","Reported diagnostics equal the analysis of the document",
"For every document text the server's diagnostic report lists exactly the problems found by analysis (unclosed literals, parse errors, lint findings), each with its line, byte columns, severity and message, none added, lost or duplicated; a document that is not open yields an empty full report.",
["inputs","histories"],"all ASCII document texts",
"The report must equal the analysis on all texts, not on samples.",
["lsp/lsp.go","process.go","linter.go"],[("diagnostics","lsp/lsp.go: lsp.doDiagnostic, textDocument/diagnostic")],
"diagnostic responses")

p("C17","Navigation answers are exact at every position",
"For every document and every position: go-to-definition on a label reference lists exactly the definitions of that label; highlighting on a label definition or reference lists exactly all definitions and references of that name; the outline lists exactly the label definitions; and the lens of each referenced label shows its number of references. At any other position definition and highlight are empty.",
["inputs"],"all ASCII documents and all positions in them, including boundaries of words",
"Boundary columns, duplicate names and several references per line multiply into a space tests do not sample.",
["lsp/lsp.go","process.go","range.go"],[("lookup","process.go: SymbolsForRefWithin, SymOrRefAt, SymByName, SymRefByName; range.go: Overlaps"),("handlers","lsp/lsp.go: definition, documentHighlight, documentSymbol, codeLens")],
"definition, highlight, symbol and lens responses")

p("C18","Renaming a label renames it everywhere and nothing else",
"For every document, every position on a label definition or reference and every new unused label name, applying the rename answer yields a text that equals the original except that every definition and reference of that label, and only those, carries the new name, and whose analysis is that of the original up to the renaming. The prepare answer gives the extent of the label's name at that position; elsewhere there is nothing to rename and no edit.",
["inputs"],"all ASCII documents, positions and new names",
"A missed or extra edit depends on the arrangement of all uses in the document.",
["lsp/lsp.go","process.go"],[("rename","lsp/lsp.go: textDocument/prepareRename, textDocument/rename"),("lookup","process.go: SymbolsWithin, SymbolRefsWithin, SymByName, SymRefByName")],
"rename edits applied to the document")

p("C19","Every offered quick fix applies cleanly and fixes what it claims",
"For every document and range, the code actions offered are exactly: removal of each redundant line in range, creation of each missing label referenced in range, replacement of each numeric field in range that has a name known to the program's version by that name and of each printable hexadecimal byte value by the equivalent literal, and a version update for each instruction in range that needs one. Executing an offered action's command asks the client to apply an edit after which the finding it addresses is gone (or the value is unchanged in meaning), every other line keeps its words, and the command is answered. A command given directly, label removal included, asks for exactly the edit its arguments describe, to the document they name and its latest text, in a request with an id of its own.",
["inputs","histories"],"all ASCII documents and ranges; for version updates documents with at most one leading version pragma, for named fields those available in the program's version",
"The effect of an edit on the re-analysed document is a property of every document, and nothing tests it.",
["lsp/lsp.go","process.go","linter.go"],[("actions","lsp/lsp.go: textDocument/codeAction"),("commands","lsp/lsp.go: workspace/executeCommand"),("hints","process.go: InlayHints")],
"code actions, apply-edit requests and the edited document")

p("C20","Completion, hover, signature help and hints match the language",
"At an instruction's word, completion offers exactly the instructions with that prefix available in the program's version and mode (besides fixed snippets, which expand to accepted code), each with its documentation, version and operands; in operand position it offers exactly the values that operand can take: the document's labels, the constants, or the fields available in the program's version. Hover shows the documentation of the instruction or field under the cursor and nothing elsewhere, signature help shows the instruction's operands with the active one, and inlay hints show exactly the names of numeric fields and the text of printable hexadecimal byte values in range, as enabled at initialisation.",
["inputs","configurations"],"all ASCII documents, positions, versions, modes and initialisation options",
"The answers range over the whole instruction and field tables and all cursor positions.",
["lsp/lsp.go","process.go"],[("argument lookup","process.go: ArgAt, ArgVals, ArgValsAt, DocAt, InlayHints, Line.ImmAt"),("handlers","lsp/lsp.go: completion, hover, signatureHelp, inlayHint")],
"completion, hover, signature help and inlay hint responses")

p("C21","Semantic tokens are ordered, disjoint and exactly classified",
"For every document the decoded semantic tokens are strictly increasing and do not overlap, lie within the text, and are exactly the instruction words, pragma words, numbers, strings and field names, byte-encoding keywords, comments, labels and label references of the document, each with its class.",
["inputs"],"all ASCII document texts",
"Duplicated, overlapping or misordered tokens arise from particular instruction forms and from the relative encoding across lines.",
["semantics.go","lsp/lsp.go","process.go"],[("encoding","semantics.go: SemanticTokens.Encode, Less"),("classification","lsp/lsp.go: textDocument/semanticTokens/full; process.go token lists")],
"semantic token responses, decoded")

p("C22","The debug adapter answers every request once and never dies",
"For every sequence of well-framed requests in any order, before and after launch, each request receives exactly one response that names it, with success unless the command is unknown, the program cannot be read, or the command needs a launched program; sequence numbers of the messages sent increase one by one. Initialisation is followed by an initialized event, launch by process and stopped-at-entry events, pause and step by a stopped event and continue by a stopped event after its response. No message content terminates the adapter, and a header without a usable length is skipped; it ends at the end of input.",
["histories","inputs"],"all sequences of requests with present, missing or out-of-range arguments",
"Protocol obligations range over histories; no test drives the adapter.",
["dbg/dbg.go","cmd/tealdbg/main.go"],[("dispatch","dbg/dbg.go: dbg.handle"),("framing and loop","dbg/dbg.go: dbg.Run, write, reply, notify")],
"frames written by the adapter for the frames it reads")

p("C23","Inspection shows the machine's state exactly",
"At every stop, threads are exactly the branches of execution; a thread's stack trace lists its call frames innermost first with the current line and each caller's line, numbered from 0 or 1 as negotiated; and the scopes of a thread give its budget, its operand stack from the top, the used scratch slots and its executed instructions, in full or for any requested sub-range. Inspecting never changes what is inspected or what executes next.",
["histories","programs"],"all programs, all execution points and all inspection requests",
"Off-by-one lines, wrong frames or wrong paging depend on the program point and call depth reached.",
["dbg/dbg.go","vm.go"],[("inspection","dbg/dbg.go: threads, stackTrace, scopes, variables")],
"inspection responses along a debugging session")

p("C24","Stepping, continuing and breakpoints follow the program",
"A step on a thread executes exactly one instruction of that thread if it is still running; continue executes until a breakpoint, an error or the end, and the stop that is reported names the reason, the thread and the breakpoints hit. Setting breakpoints answers, for each requested line in order, whether an instruction is there, with line numbers as negotiated, and replaces the earlier set. An error in the program is reported as an exception stop, and the session stays usable.",
["histories","programs","schedules"],"all programs and all interleavings of step, continue and breakpoint requests over threads",
"The stop reached depends on the whole command history and on forks in the program.",
["dbg/dbg.go","vm.go"],[("execution control","dbg/dbg.go: next, continue, pause, setBreakpoints, launch"),("machine","vm.go: Vm.Run, Step, Switch, SetBreakpoints")],
"stopped events and inspected state along a debugging session")

p("C25","The SARIF report lists every finding at its place",
"For every directory tree or file, the scanner's report is valid SARIF listing exactly the TEAL files found as artifacts and, for each, exactly the findings of its analysis, each with its declared rule, level, one-based line and column, and the location and index of its own artifact. Files of a directory with other extensions are ignored, a file given by itself is scanned whatever its name, a tree without findings gives an empty result list, and a path that does not exist makes the scanner fail.",
["inputs","configurations"],"all directory trees and file contents",
"Attribution of findings to the right artifact depends on several files with several findings each.",
["cmd/tealsarif/main.go","internal/sarif/sarif.go"],[("scan and report","cmd/tealsarif/main.go: run, ToSarifLevel")],
"JSON written by the scanner")

p("C26","Formatting keeps the program",
"For every document the edit answered to a formatting request, applied to the document, gives a text with the same instructions, labels, pragmas and comments, word for word and line by line in the same order; only blanks between and around words and empty lines differ. No line is lost, repeated or joined with another, however the text ends. Formatting the formatted text changes nothing.",
["inputs"],"all ASCII document texts, with every kind of line end and with open literals",
"Whether the edit covers exactly the document depends on how the text ends and on its line ends.",
["lsp/lsp.go","lsp/doc.go"],[("formatting","lsp/lsp.go: textDocument/formatting; lsp/doc.go: splitLines")],
"the document after applying the edits of a formatting response")

p("C27","Programs built in Go compile to what was composed",
"For every program composed with the exported constructors, compiling it gives the instructions of its parts in order: lists, blocks, programs and listings are flattened, operators and assertions come after their operands, an inner transaction is enclosed by begin and submit, a call follows its arguments, and a function is its label, prototype, body and return. The printed text has one instruction a line and is analysed as exactly those instructions with those operands, whatever values and strings were given. Compiling, linting and optimising change none of the parts, so that shared parts compile to the same again, and linting the listing reports what its text would get.",
["inputs"],"all expression trees over the exported constructors, with shared parts",
"Order, flattening and escaping have to hold for every nesting and value; no test composes a program.",
["compiler.go","expr.go"],[("compiling","compiler.go: Compile, Program.Compile, compiler.compile, Listing.String, Listing.Lint"),("constructors","expr.go: Plus, Minus, Assert*, Block, Itxn, MatchLabels, FuncExpr, NestedExpr, StringBytes and the ready-made instructions")],
"compiled listing, printed text and lint findings")

p("C28","The servers announce exactly what they answer",
"For every set of initialisation options the language server announces exactly the requests and commands it answers, full-text synchronisation, and a token legend naming every class it uses; semantic tokens and inlay hints are announced exactly when enabled. Every announced request about an open document is answered with a result. The debug adapter announces exactly the optional request it answers.",
["configurations"],"all combinations of the initialisation options, given, false or absent, and repeated initialisation",
"A client never sends what is not announced, so that a missing or false announcement disables a feature silently.",
["lsp/lsp.go","dbg/dbg.go"],[("capabilities","lsp/lsp.go: initialize; dbg/dbg.go: initialize")],
"initialize responses and the answers to the announced requests")

p("C29","The command-line helpers print the analysis",
"For every file the tokenizer helper prints exactly the tokens of its text in order, with one-based positions, then one line per lexical error; the lint helper prints exactly the findings of the analysis with position, severity and message; the interpreter helper runs every program to its end without output. A file that cannot be read makes them fail.",
["inputs"],"all file contents",
"The helpers are entry points without tests; positions and completeness depend on the text.",
["debug/tokenize/main.go","debug/lint/main.go","debug/interpret/main.go","diag.go"],[("helpers","debug/*/main.go; diag.go: DiagnosticSeverity.String")],
"standard output and exit status of the helpers")

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import sys
for x in P:
    assert len(x['title'])<=80,x['title']
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
