------------------------------ MODULE LspServer ------------------------------
(***************************************************************************)
(* The language server.  Its state st is                                   *)
(*   docs   open documents: a function from identifier to [src, c], c the  *)
(*          complete analysis of the text                                  *)
(*   cfg    what was enabled at initialisation                             *)
(*   shut   a shutdown request was answered; over: no further message is   *)
(*          read; code the exit status                                     *)
(*   req    number of requests sent to the client                          *)
(* A message is a record                                                   *)
(*   m      method; id whether it carries an id                            *)
(*   k      "ok" well-formed parameters, "missing" none, "bad" of another  *)
(*          type, "empty" an empty object, "response" a response of the    *)
(*          client, "junk" not JSON                                        *)
(*   uri, texts, l, ch, l2, ch2, name, cmd, n, set  its parameters         *)
(* Lines and columns count from 0, columns in bytes; a position lies on a  *)
(* word when it is between its first column and the column after its last. *)
(***************************************************************************)
EXTENDS TealLint

NoDocs == [u \in {} |-> [src |-> << >>, c |-> AInit]]
CfgOn == [sem |-> TRUE, named |-> TRUE, dec |-> TRUE, lens |-> TRUE]
LspInit == [docs |-> NoDocs, cfg |-> CfgOn, shut |-> FALSE, over |-> FALSE, code |-> 0, req |-> 0]

-----------------------------------------------------------------------------
(* texts and edits *)

\* [b, e] of the lines of the text: the bytes before the line and before its line end
LineEnds(src) == SelectSeq([i \in 1..Len(src) |-> i], LAMBDA i :
               IsEolChar(src[i]) /\ ~ (src[i] = "\n" /\ i > 1 /\ src[i - 1] = "\r"))
LineSpans(src) ==
  LET E == LineEnds(src)
      after(j) == IF src[j] = "\r" /\ j < Len(src) /\ src[j + 1] = "\n" THEN j + 1 ELSE j
  IN [k \in 1..(Len(E) + 1) |->
        [b |-> IF k = 1 THEN 0 ELSE after(E[k - 1]), e |-> IF k > Len(E) THEN Len(src) ELSE E[k] - 1]]

\* offset of a position; beyond the line its end, beyond the text its end
Offset(ls, l, ch) ==
  IF l >= Len(ls) THEN ls[Len(ls)].e
  ELSE IF ls[l + 1].b + ch > ls[l + 1].e THEN ls[l + 1].e ELSE ls[l + 1].b + ch

Edit(l, b, l2, e, t) == [l |-> l, b |-> b, l2 |-> l2, e |-> e, t |-> t]

\* edits do not overlap; the last one first
ApplyEdits(src, edits) ==
  LET ls == LineSpans(src)
      at == SortSeq([i \in 1..Len(edits) |->
              [p |-> Offset(ls, edits[i].l, edits[i].b), q |-> Offset(ls, edits[i].l2, edits[i].e), t |-> edits[i].t]],
              LAMBDA x, y : x.p > y.p)
  IN FoldLeft(LAMBDA s, x : SubSeq(s, 1, x.p) \o x.t \o SubSeq(s, x.q + 1, Len(s)), src, at)

-----------------------------------------------------------------------------
(* names under a position *)

On(w, l, ch) == w.l = l /\ w.b <= ch /\ ch <= w.e
RefsAt(c, l, ch) == SelectSeq(c.refs, LAMBDA t : On(t, l, ch))
SymsAt(c, l, ch) == SelectSeq(c.syms, LAMBDA s : On(s, l, ch))
SymsNamed(c, n) == SelectSeq(c.syms, LAMBDA s : s.name = n)
RefsNamed(c, n) == SelectSeq(c.refs, LAMBDA t : Str(t.v) = n)

\* the name at a position: << >> or << name >>
NameAt(c, l, ch) ==
  IF SymsAt(c, l, ch) # << >> THEN << SymsAt(c, l, ch)[1].name >>
  ELSE IF RefsAt(c, l, ch) # << >> THEN << Str(RefsAt(c, l, ch)[1].v) >> ELSE << >>

\* a definition covers the name without its colon
DefRange(s) == << s.l, s.b, s.e - 1 >>
RefRange(t) == << t.l, t.b, t.e >>
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

Definition(c, l, ch) ==
  LET r == RefsAt(c, l, ch) IN
  IF r = << >> THEN << >> ELSE Map(SymsNamed(c, Str(r[1].v)), DefRange)

Occurrences(c, n) == Map(SymsNamed(c, n), DefRange) \o Map(RefsNamed(c, n), RefRange)

Highlight(c, l, ch) ==
  LET n == NameAt(c, l, ch) IN IF n = << >> THEN << >> ELSE Occurrences(c, n[1])

Outline(c) == Map(c.syms, LAMBDA s : << s.name, s.l, s.b, s.e >>)

Lenses(c) ==
  LET s == SelectSeq(c.syms, LAMBDA x : RefCount(c, x.name) > 0)
  IN Map(s, LAMBDA x : << x.l, RefCount(c, x.name) >>)

PrepareRename(c, l, ch) ==
  LET s == SymsAt(c, l, ch) r == RefsAt(c, l, ch) IN
  IF s # << >> THEN << DefRange(s[1]), s[1].name >>
  ELSE IF r # << >> THEN << RefRange(r[1]), Str(r[1].v) >>
  ELSE << >>

RenameEdits(c, l, ch, new) ==
  LET h == Highlight(c, l, ch) IN Map(h, LAMBDA x : Edit(x[1], x[2], x[1], x[3], new))

-----------------------------------------------------------------------------
(* operands, hints and documentation *)

\* where the kinds of fields are listed
FieldTable(kind) == IF kind \in {"txn", "txna", "itxn"} THEN FieldsOf["txn"] ELSE FieldsOf[kind]
IsFieldKind(kind) == kind \in FieldKinds \cup {"txna", "itxn"}
FieldIn(kind, f) == CASE kind = "txna" -> f.arr [] kind = "itxn" -> f.itx > 0 [] OTHER -> TRUE
FieldVersion(kind, f) == IF kind = "itxn" THEN f.itx ELSE f.ver

FirstWord(line) == IF line # << >> /\ line[1].t # "C" THEN Str(line[1].v) ELSE ""
IsOpLine(line) == line # << >> /\ FirstWord(line) \in OpNames

\* the operand that word i (from 2) of a line is given for, by position: << >> or << imm >>
ImmOf(line, i) ==
  LET imm == OpOf[FirstWord(line)].imm
      k == IF i - 1 > Len(imm) /\ imm # << >> /\ imm[Len(imm)].arr THEN Len(imm) ELSE i - 1
  IN IF k <= Len(imm) THEN << imm[k] >> ELSE << >>

\* the field a number names: << >> or << field >>
NamedField(line, i) ==
  LET imm == OpOf[FirstWord(line)].imm IN
  IF i < 2 \/ i - 1 > Len(imm) \/ ~ IsFieldKind(imm[i - 1].k) THEN << >>
  ELSE LET n == ParseDec(line[i].v) tab == FieldTable(imm[i - 1].k) IN
       IF n.ok /\ n.n >= 0 /\ n.n < Len(tab) /\ FieldIn(imm[i - 1].k, tab[n.n + 1])
       THEN << [name |-> tab[n.n + 1].name, ver |-> FieldVersion(imm[i - 1].k, tab[n.n + 1])] >> ELSE << >>

\* the text of a printable hexadecimal byte value: << >> or << text >>
DecodedText(line, i) ==
  IF i < 2 \/ ImmOf(line, i) = << >> THEN << >>
  ELSE IF ImmOf(line, i)[1].k # "bytes" \/ BytesKeyword(line[i - 1].v) \/ ~ HasPrefix(line[i].v, <<"0","x">>) THEN << >>
  ELSE LET h == HexDecode(SubSeq(line[i].v, 3, Len(line[i].v))) IN
       IF h.ok /\ Printable(h.bytes) THEN << TextOf(h.bytes) >> ELSE << >>

\* a word and a range share a position
Before(l1, c1, l2, c2) == l1 < l2 \/ (l1 = l2 /\ c1 < c2)
Within(l, b, e, g) == ~ Before(l, e, g.l, g.ch) /\ ~ Before(g.l2, g.ch2, l, b)

\* [w, name, ver] and [w, text] of the words in the range, in source order
Hints(c, g, what(_, _)) ==
  LET lines == SelectSeq(c.lines, LAMBDA ln : IsOpLine(ln) /\ ln[1].l >= g.l /\ ln[1].l <= g.l2)
      ofLine(ln) == FoldLeft(LAMBDA a, i :
                      IF Within(ln[i].l, ln[i].b, ln[i].e, g) /\ what(ln, i) # << >>
                      THEN Append(a, [w |-> ln[i], x |-> what(ln, i)[1]]) ELSE a,
                      << >>, [i \in 1..Len(ln) |-> i])
  IN FoldLeft(LAMBDA a, ln : a \o ofLine(ln), << >>, lines)

NamedHints(c, g) == Hints(c, g, NamedField)
DecodedHints(c, g) == Hints(c, g, DecodedText)

InlayHints(c, cfg, g) ==
  (IF cfg.named THEN Map(NamedHints(c, g), LAMBDA h : << h.w.l, h.w.e, h.x.name >>) ELSE << >>)
  \o (IF cfg.dec THEN Map(DecodedHints(c, g), LAMBDA h : << h.w.l, h.w.e, Str(h.x) >>) ELSE << >>)

LineAt(c, l) == IF l >= 0 /\ l < Len(c.lines) THEN c.lines[l + 1] ELSE << >>

\* words of the line (from the second) under the column
OperandAt(line, ch) == {i \in 2..Len(line) : line[i].b <= ch /\ ch <= line[i].e}

\* the operand being written at a column: its index from 0
ActiveOperand(line, ch) ==
  LET P == OperandAt(line, ch)
      k == IF P = {} THEN Len(line) - 1 ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 2
      imm == OpOf[FirstWord(line)].imm
  IN IF k >= Len(imm) /\ imm # << >> /\ imm[Len(imm)].arr THEN Len(imm) - 1 ELSE k

Available(c, o) == LET v == IF c.mode = "app" THEN o.app ELSE o.sig IN v > 0 /\ VerGe(c.ver, v)

OpsWithPrefix(c, p) ==
  LET S == SelectSeq(OpList, LAMBDA o : Available(c, o))
      T == SelectSeq(S, LAMBDA o : Len(o.name) >= Len(Str(p)) /\ SubSeq(o.name, 1, Len(Str(p))) = Str(p))
  IN Map(T, LAMBDA o : << o.name, IF c.mode = "app" THEN o.app ELSE o.sig >>)

FieldsOffered(c, kind) ==
  LET tab == FieldTable(kind)
      S == SelectSeq([i \in 1..Len(tab) |-> i], LAMBDA i : FieldIn(kind, tab[i]) /\ VerGe(c.ver, FieldVersion(kind, tab[i])))
  IN Map(S, LAMBDA i : << tab[i].name, i - 1 >>)

ConstsOffered ==
  LET S == SelectSeq(IntConstList, LAMBDA e : e.v # 0 \/ e.name = "NoOp") IN Map(S, LAMBDA e : << e.name, e.v >>)

\* [k |-> "op", names with the version they came with], [k |-> "arg", kind, values] or, inside a comment, [k |-> "any"]
Completion(c, l, ch) ==
  LET line == LineAt(c, l) IN
  IF line # << >> /\ line[1].t = "C" THEN [k |-> "any", v |-> << >>, a |-> ""]
  ELSE IF line = << >> THEN [k |-> "op", v |-> OpsWithPrefix(c, << >>), a |-> ""]
  ELSE IF ch <= line[1].e THEN [k |-> "op", v |-> OpsWithPrefix(c, line[1].v), a |-> ""]
  ELSE IF ~ IsOpLine(line) THEN [k |-> "arg", v |-> << >>, a |-> ""]
  ELSE LET k == ActiveOperand(line, ch)
           imm == OpOf[FirstWord(line)].imm
       IN IF k >= Len(imm) THEN [k |-> "arg", v |-> << >>, a |-> ""]
          ELSE IF imm[k + 1].k = "label" THEN [k |-> "arg", a |-> "label",
                 v |-> Map(c.syms, LAMBDA s : << s.name, Map(s.docs, Str),
                            Map(ProtoOf(c, s.name), LAMBDA p : << p.a, p.r >>) >>)]
          ELSE IF imm[k + 1].k = "const" THEN [k |-> "arg", a |-> "const", v |-> ConstsOffered]
          ELSE IF IsFieldKind(imm[k + 1].k) THEN [k |-> "arg", a |-> imm[k + 1].k, v |-> FieldsOffered(c, imm[k + 1].k)]
          ELSE [k |-> "arg", a |-> "", v |-> << >>]

\* << >>, << "op", name >> or << "field", table, number >>
Hover(c, l, ch) ==
  LET line == LineAt(c, l)
      P == {i \in 1..Len(line) : line[i].b <= ch /\ ch <= line[i].e}
  IN IF P = {} \/ ~ IsOpLine(line) THEN << >>
     ELSE LET i == CHOOSE x \in P : \A y \in P : x <= y IN
          IF i = 1 THEN << "op", FirstWord(line) >>
          ELSE IF ImmOf(line, i) = << >> THEN << >>
          ELSE LET kind == ImmOf(line, i)[1].k IN
               IF ~ IsFieldKind(kind) THEN << >>
               ELSE LET tk == IF kind \in {"txna", "itxn"} THEN "txn" ELSE kind
                        n == ParseUint8(line[i].v)
                    IN IF Str(line[i].v) \in FieldNames[tk] THEN << "field", tk, FieldNum[tk][Str(line[i].v)] >>
                       ELSE IF n.ok /\ n.n < Len(FieldsOf[tk]) THEN << "field", tk, n.n >> ELSE << >>

Signature(c, l, ch) ==
  LET line == LineAt(c, l) IN
  IF ~ IsOpLine(line) THEN << >> ELSE << FirstWord(line), ActiveOperand(line, ch) >>

-----------------------------------------------------------------------------
(* semantic tokens *)

ClassOf(c) ==
  LET tag(ts, cl) == Map(ts, LAMBDA t : << t.l, t.b, t.e - t.b, cl >>)
      cm == SelectSeq(c.toks, LAMBDA t : t.t = "C")
  IN tag(c.mcrs, "macro") \o tag(c.ops, "keyword") \o tag(c.nums, "number") \o tag(c.strs, "string")
     \o tag(c.keys, "keyword") \o tag(cm, "comment") \o tag(c.syms, "method") \o tag(c.refs, "string")

SemanticTokens(c) == SortSeq(ClassOf(c), LAMBDA x, y : Before(x[1], x[2], y[1], y[2]))

SemanticInvariant(c) ==
  LET s == SemanticTokens(c) IN
  \A i \in 1..Len(s) :
    /\ s[i][3] > 0
    /\ i > 1 => Before(s[i - 1][1], s[i - 1][2] + s[i - 1][3] - 1, s[i][1], s[i][2])
    \* each is exactly a word or comment of the text
    /\ \E j \in 1..Len(c.toks) : c.toks[j].l = s[i][1] /\ c.toks[j].b = s[i][2] /\ c.toks[j].e - c.toks[j].b = s[i][3]
    /\ \A j \in 1..Len(s) : i # j => << s[i][1], s[i][2] >> # << s[j][1], s[j][2] >>

-----------------------------------------------------------------------------
(* quick fixes *)

Quote(s) == << "\"" >> \o FoldLeft(LAMBDA a, x : a \o (IF x \in {"\\", "\""} THEN << "\\", x >> ELSE << x >>), << >>, s)
            \o << "\"" >>

Action(k, w, t, n) == [k |-> k, l |-> w.l, b |-> w.b, e |-> w.e, t |-> t, n |-> n]
NoWord == [l |-> 0, b |-> 0, e |-> 0]

Actions(c, g) ==
  LET red == SelectSeq(Redundants(c), LAMBDA x : g.l <= x.l /\ x.l <= g.l2)
      mis == SelectSeq(MissRefs(c), LAMBDA t : Within(t.l, t.b, t.e, g))
      nam == SelectSeq(NamedHints(c, g), LAMBDA h : VerGe(c.ver, h.x.ver))
      ver == SelectSeq(c.vers, LAMBDA v : Within(v.l, v.b, v.e, g))
  IN Map(red, LAMBDA x : Action("remove", [l |-> x.l, b |-> 0, e |-> 0], << >>, 0))
     \o Map(mis, LAMBDA t : Action("create", NoWord, t.v, 0))
     \o Map(nam, LAMBDA h : Action("replace", h.w, << h.x.name >>, 0))
     \o Map(DecodedHints(c, g), LAMBDA h : Action("replace", h.w, Quote(h.x), 0))
     \o Map(ver, LAMBDA v : Action("version", NoWord, << >>, v.v))

CRLF == << "\r", "\n" >>
ActionEdits(c, a) ==
  CASE a.k = "remove" -> << Edit(a.l, 0, a.l + 1, 0, << >>) >>
    [] a.k = "create" -> << Edit(Len(c.lines), 0, Len(c.lines), 0, CRLF \o a.t \o << ":" >> \o CRLF) >>
    [] a.k = "replace" -> << Edit(a.l, a.b, a.l, a.e, a.t) >>
    [] a.k = "version" ->
         (IF c.vtok # << >> THEN << Edit(c.vtok[1].l, c.vtok[1].b, c.vtok[1].l, c.vtok[1].e, << ToString(a.n) >>) >>
          ELSE << Edit(0, 0, 0, 0, << "#", "p", "r", "a", "g", "m", "a", " ", "v", "e", "r", "s", "i", "o", "n", " ",
                                      ToString(a.n) >> \o CRLF) >>)

\* texts built above may hold names as one element; split them
CharOf(s, i) == SubSeq(s, i, i)
Split(src) == FoldLeft(LAMBDA a, x : IF Len(x) = 1 \/ x \in AllBytes THEN Append(a, x)
                                     ELSE a \o [i \in 1..Len(x) |-> CharOf(x, i)], << >>, src)
AfterAction(src, c, a) == Split(ApplyEdits(src, ActionEdits(c, a)))

\* a command given directly: its edits, whatever its arguments say
CommandName(m) == IF m.name = << >> THEN << "a" >> ELSE m.name
CommandEdits(c, m) ==
  CASE m.cmd = "teal.line.remove" -> ActionEdits(c, Action("remove", [l |-> m.l, b |-> 0, e |-> 0], << >>, 0))
    [] m.cmd = "teal.label.create" -> ActionEdits(c, Action("create", NoWord, CommandName(m), 0))
    [] m.cmd = "teal.version.update" -> ActionEdits(c, Action("version", NoWord, << >>, m.v))
    [] m.cmd = "teal.value.replace" -> << Edit(m.l, m.ch, m.l2, m.ch2, m.name) >>
    [] m.cmd = "teal.label.remove" ->
         Map(SelectSeq(c.syms, LAMBDA s : s.name = Str(CommandName(m))), LAMBDA s : Edit(s.l, s.b, s.l, s.e, << >>))
AfterCommand(src, c, m) == Split(ApplyEdits(src, CommandEdits(c, m)))

\* the words of a line
Values(line) == Map(line, LAMBDA t : Str(t.v))
LineWords(line) == Values(SelectSeq(line, LAMBDA t : t.t = "V"))
LineValues(c) == Map(c.lines, Values)
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # << >>)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* the document declares its version, perhaps several times, ahead of its instructions
PlainVersion(c) ==
  /\ \A i \in 1..Len(c.list) : c.list[i].op = "#pragma" =>
       \A j \in 1..(i - 1) : c.list[j].op \in {"", ":", "#pragma"} /\ ~ IsOpLine(c.lines[j])
  /\ c.vtok # << >> => c.list[c.vtok[1].l + 1].op = "#pragma"

\* what an action's edit achieves: c before, d after; ce is c with its last line ended, as creating a label does (a literal
\* open at the very end of a text is not a token, an open one at the end of a line is)
ActionFixes(c, ce, d, a) ==
  CASE a.k = "remove" -> NonEmpty(LineValues(d)) = NonEmpty(Without(LineValues(c), a.l + 1))
    [] a.k = "create" -> a.t[1] = "\"" \/      \* a name that cannot be defined
                         (/\ Str(a.t) \in Defined(d)
                          /\ ~ \E i \in 1..Len(MissRefs(d)) : MissRefs(d)[i].v = a.t
                          /\ \E x \in {c, ce} : NonEmpty(LineValues(d)) = Append(NonEmpty(LineValues(x)), << Str(a.t) \o ":" >>))
    [] a.k = "replace" ->
         (/\ Len(d.lines) = Len(c.lines)
          /\ \A i \in 1..Len(c.lines) : i # a.l + 1 => Values(c.lines[i]) = Values(d.lines[i])
          /\ Len(c.lines[a.l + 1]) = Len(d.lines[a.l + 1])
          \* the same instruction with the same operand values, where the version of the line is that of the program
          /\ PlainVersion(c) /\ c.list[a.l + 1].op # "" => d.list = c.list)
    [] a.k = "version" ->
         (/\ PlainVersion(c) => \A i \in 1..Len(d.vers) : d.vers[i].v > a.n
          /\ PlainVersion(c) /\ c.vtok # << >> =>
               \A i \in 1..Len(c.lines) : i # c.vtok[1].l + 1 => Values(c.lines[i]) = Values(d.lines[i])
          /\ c.vtok = << >> => Tail(LineValues(d)) = LineValues(c))

\* removing a label by command takes the words that define it away and nothing else
LabelRemoved(c, d, name) ==
  LET L == {c.syms[i].l : i \in {j \in 1..Len(c.syms) : c.syms[j].name = name}}
      V == Map(c.lines, LineWords)
  IN NonEmpty(Map(d.lines, LineWords)) = NonEmpty([i \in 1..Len(V) |-> IF (i - 1) \in L THEN Tail(V[i]) ELSE V[i]])

\* what a rename achieves: c before, d after; the new name is not in use
RenameSeq(s, old, new) == Map(s, LAMBDA x : IF x = old THEN new ELSE x)
RenameCorrect(c, d, old, new) ==
  LET en(e) == IF e.op = ":" \/ e.op \in BranchOps
               THEN [e EXCEPT !.a = Map(@, LAMBDA x : [x EXCEPT !.s = IF @ = old THEN new ELSE @])] ELSE e
      f(x) == << x.rule, x.l, x.sev >>
  IN /\ d.list = Map(c.list, en)
     /\ Map(d.syms, LAMBDA s : << s.name, s.l >>) = Map(c.syms, LAMBDA s : << IF s.name = old THEN new ELSE s.name, s.l >>)
     /\ Map(d.refs, LAMBDA t : << Str(t.v), t.l >>) = Map(c.refs, LAMBDA t : << IF Str(t.v) = old THEN new ELSE Str(t.v), t.l >>)
     /\ d.refc = RenameSeq(c.refc, old, new)
     /\ Map(d.diags, f) = Map(c.diags, f)

-----------------------------------------------------------------------------
(* messages *)

DocMethods == {"textDocument/prepareRename", "textDocument/rename", "textDocument/inlineValue", "textDocument/codeLens",
               "textDocument/inlayHint", "textDocument/completion", "textDocument/hover", "textDocument/definition",
               "textDocument/formatting", "textDocument/signatureHelp", "textDocument/codeAction",
               "textDocument/documentHighlight", "textDocument/documentSymbol", "textDocument/semanticTokens/full"}
Commands == {"teal.version.update", "teal.value.replace", "teal.line.remove", "teal.label.remove", "teal.label.create"}
NeedsParams(m) == m = "workspace/executeCommand" \/ (Len(m) > 13 /\ SubSeq(m, 1, 13) = "textDocument/")

Known(st, u) == u \in DOMAIN st.docs
Open(st, u, text, addrs) == [st EXCEPT !.docs = (u :> [src |-> text, c |-> Analyse(text, addrs)]) @@ @]
Close(st, u) == [st EXCEPT !.docs = [x \in DOMAIN st.docs \ {u} |-> st.docs[x]]]
SetTo(old, v) == IF v = "t" THEN TRUE ELSE IF v = "f" THEN FALSE ELSE old

Configured(cfg, msg) == [sem |-> SetTo(cfg.sem, msg.set[1]), named |-> SetTo(cfg.named, msg.set[2]),
                         dec |-> SetTo(cfg.dec, msg.set[3]), lens |-> SetTo(cfg.lens, msg.set[4])]

\* what a client is told it may ask for: every method answered, unless it was turned off
Served == DocMethods \union {"textDocument/diagnostic", "workspace/executeCommand"}
Announced(cfg) ==
  {m \in Served : CASE m = "textDocument/semanticTokens/full" -> cfg.sem
                    [] m = "textDocument/inlayHint" -> cfg.named \/ cfg.dec
                    [] OTHER -> TRUE}

\* the outcome of a message: the next state, and "none", "result" or "error",
\* with the number of requests sent to the client
Out(st, o) == [st |-> st, o |-> o, n |-> 0]

LspStep(st, msg, addrs) ==
  IF msg.k \in {"junk", "response"} \/ msg.m = "" THEN Out(st, "none")
  ELSE IF NeedsParams(msg.m) /\ msg.k = "missing" THEN Out(st, "error")
  ELSE IF msg.m = "initialized" THEN Out(st, "none")
  ELSE IF msg.m = "exit" THEN Out([st EXCEPT !.over = TRUE, !.code = IF st.shut THEN 0 ELSE 1], "none")
  ELSE IF msg.m \in {"textDocument/didOpen", "textDocument/didChange", "textDocument/didSave"} THEN
    IF msg.k = "bad" THEN Out(st, "error")
    ELSE IF msg.m = "textDocument/didOpen" THEN Out(Open(st, msg.uri, msg.texts[1], addrs), "none")
    ELSE IF msg.m = "textDocument/didSave" \/ msg.texts = << >> THEN Out(st, "none")
    ELSE IF Known(st, msg.uri) THEN Out(Open(st, msg.uri, msg.texts[Len(msg.texts)], addrs), "none")
    ELSE Out(st, "error")
  ELSE IF st.shut THEN Out(st, "error")
  ELSE IF msg.m = "shutdown" THEN Out([st EXCEPT !.shut = TRUE], "result")
  ELSE IF msg.m = "$/cancelRequest" THEN Out(st, "none")
  ELSE IF msg.m = "textDocument/didClose" THEN
    IF msg.k = "bad" THEN Out(st, "error") ELSE Out(Close(st, msg.uri), "none")
  ELSE IF msg.m = "initialize" THEN
    IF msg.k = "bad" THEN Out(st, "error")
    ELSE Out([st EXCEPT !.cfg = Configured(@, msg)], "result")
  ELSE IF msg.m = "textDocument/diagnostic" THEN
    Out(st, IF msg.k = "bad" THEN "error" ELSE "result")
  ELSE IF msg.m \in DocMethods THEN
    Out(st, IF msg.k = "bad" \/ ~ Known(st, msg.uri) THEN "error" ELSE "result")
  ELSE IF msg.m = "workspace/executeCommand" THEN
    IF msg.k = "bad" \/ msg.cmd \notin Commands \/ msg.n # 1 \/ ~ Known(st, msg.uri) THEN Out(st, "error")
    ELSE [st |-> [st EXCEPT !.req = @ + 1], o |-> "result", n |-> 1]
  ELSE Out(st, "error")

\* what a request about a document is answered with
Rng(msg) == [l |-> msg.l, ch |-> msg.ch, l2 |-> msg.l2, ch2 |-> msg.ch2]
DiagRange(d) == << d.l, d.b, d.e, d.sev >>

\* the content of a result about an open document
Content(s, m) ==
  LET c == s.docs[m.uri].c src == s.docs[m.uri].src IN
  CASE m.m = "textDocument/definition" -> Definition(c, m.l, m.ch)
    [] m.m = "textDocument/documentHighlight" -> Highlight(c, m.l, m.ch)
    [] m.m = "textDocument/documentSymbol" -> Outline(c)
    [] m.m = "textDocument/codeLens" -> (IF s.cfg.lens THEN Lenses(c) ELSE << >>)
    [] m.m = "textDocument/prepareRename" -> PrepareRename(c, m.l, m.ch)
    [] m.m = "textDocument/rename" ->
         << Len(RenameEdits(c, m.l, m.ch, m.name)), Str(ApplyEdits(src, RenameEdits(c, m.l, m.ch, m.name))) >>
    [] m.m = "textDocument/inlayHint" -> InlayHints(c, s.cfg, Rng(m))
    [] m.m = "textDocument/completion" -> Completion(c, m.l, m.ch)
    [] m.m = "textDocument/hover" -> Hover(c, m.l, m.ch)
    [] m.m = "textDocument/signatureHelp" -> Signature(c, m.l, m.ch)
    [] m.m = "textDocument/semanticTokens/full" -> SemanticTokens(c)
    [] m.m = "textDocument/codeAction" ->
         (LET A == Actions(c, Rng(m)) IN
          Map(A, LAMBDA a : << a.k, a.l, a.b, a.e, Str(a.t), a.n, Str(AfterAction(src, c, a)), PlainVersion(c) >>))
    [] OTHER -> << >>

\* the content of the answer to message m with outcome o in state s
AnswerContent(s, m, o) ==
  IF o # "result" THEN << >>
  ELSE IF m.m = "textDocument/diagnostic" THEN
    (IF Known(s, m.uri) THEN Map(s.docs[m.uri].c.diags, DiagRange) ELSE << >>)
  ELSE IF m.m = "initialize" THEN
    << SetToSeq(Announced(Configured(s.cfg, m))), SetToSeq(Commands), << "comment", "keyword", "macro", "method", "number", "string" >> >>
  ELSE IF m.m = "workspace/executeCommand" THEN
    (IF m.l < 0 \/ m.l2 < 0 \/ m.ch < 0 \/ m.ch2 < 0 THEN << >>
     ELSE << Str(AfterCommand(s.docs[m.uri].src, s.docs[m.uri].c, m)) >>)
  ELSE IF m.m \in DocMethods THEN Content(s, m) ELSE << >>

\* what a client sees of a message: nothing is answered without an id
Seen(m, o) == IF m.id THEN o ELSE "none"

\* a message that has to be answered
IsRequest(m) == /\ m.id /\ m.k \notin {"junk", "response"} /\ m.m # ""
                /\ m.m \notin {"initialized", "exit", "$/cancelRequest", "textDocument/didOpen", "textDocument/didChange",
                               "textDocument/didSave", "textDocument/didClose"}

\* the latest texts by identifier, tracked on its own (shut: the server is shut down)
Track(latest, m, shut) ==
  IF m.k # "ok" /\ m.k # "empty" THEN latest
  ELSE IF m.m = "textDocument/didOpen" THEN (m.uri :> m.texts[1]) @@ latest
  ELSE IF m.m = "textDocument/didChange" /\ m.uri \in DOMAIN latest /\ m.texts # << >>
    THEN (m.uri :> m.texts[Len(m.texts)]) @@ latest
  ELSE IF m.m = "textDocument/didClose" /\ ~ shut THEN [u \in DOMAIN latest \ {m.uri} |-> latest[u]]
  ELSE latest
NoLatest == [u \in {} |-> << >>]
=============================================================================
