---------------------------- MODULE TealAnalysis ----------------------------
(***************************************************************************)
(* Analysis of a source: tokens are grouped into lines, every line adds    *)
(* one entry to the listing, and names, references, versions and findings  *)
(* are collected.  The state c of the analysis is                          *)
(*   mode "app" or "sig"; ver the version in force (v numeral, n value or  *)
(*   -1 when it is large); vtok the version word                           *)
(*   list    the listing: [op, a], a a sequence of operands [s, b]:        *)
(*           s a numeral or name, b the bytes of a byte string             *)
(*           op = "" for an empty entry, ":" for a label                   *)
(*   diags   findings [rule, l, b, e, sev]                                 *)
(*   ops, nums, strs, keys, mcrs, refs   classified words                  *)
(*   syms    label definitions; docs the comments collected for the next   *)
(*   label   the name of the last label; protos its prototype              *)
(*   refc    label operands of accepted instructions                       *)
(*   vers    required versions                                             *)
(*   lines   the words of every line                                       *)
(* One step analyses one line.                                             *)
(***************************************************************************)
EXTENDS TealLexer, TealTables

VerOne == [v |-> "1", n |-> 1]
VerGe(ver, m) == ver.n = -1 \/ ver.n >= m

AInit == [mode |-> "app", ver |-> VerOne, vtok |-> << >>, list |-> << >>, diags |-> << >>,
          ops |-> << >>, nums |-> << >>, strs |-> << >>, keys |-> << >>, mcrs |-> << >>,
          refs |-> << >>, syms |-> << >>, docs |-> << >>, label |-> << >>,
          protos |-> << >>, refc |-> << >>, vers |-> << >>, lines |-> << >>]

-----------------------------------------------------------------------------
(* lines *)

\* the words of every line, line ends removed; a last line without a token
\* has no entry
LinesOf(toks) ==
  LET r == FoldLeft(LAMBDA a, t :
             IF t.t = "E" THEN [done |-> Append(a.done, a.cur), cur |-> << >>]
             ELSE [a EXCEPT !.cur = Append(@, t)],
             [done |-> << >>, cur |-> << >>], toks)
  IN IF r.cur = << >> THEN r.done ELSE Append(r.done, r.cur)

\* a comment after a word is not part of the line
Words(line) ==
  LET P == {i \in 2..Len(line) : line[i].t = "C"}
  IN IF P = {} THEN line ELSE SubSeq(line, 1, (CHOOSE i \in P : \A j \in P : i <= j) - 1)

-----------------------------------------------------------------------------
(* operands: each reader gives [ok, s, b, c], c the class of the word *)

Op0(s) == [s |-> s, b |-> << >>]
Bad == [ok |-> FALSE, s |-> "", b |-> << >>, c |-> ""]
GoodNum(s) == [ok |-> TRUE, s |-> s, b |-> << >>, c |-> "num"]
GoodStr(s) == [ok |-> TRUE, s |-> s, b |-> << >>, c |-> "str"]
GoodBytes(bs) == [ok |-> TRUE, s |-> "", b |-> bs, c |-> "str"]

FromNum(r) == IF r.ok THEN GoodNum(r.v) ELSE Bad

\* a field by name (available in version ver) or by number 0..255
ReadField(kind, v, ver, avail(_), need(_)) ==
  LET name == Str(v) IN
  IF name \in FieldNames[kind] THEN
    LET n == FieldNum[kind][name]
        f == FieldsOf[kind][n + 1]
    IN IF avail(f) /\ VerGe(ver, need(f)) THEN GoodStr(ToString(n)) ELSE Bad
  ELSE FromNum(ParseUint8(v))

QuotedLiteral(v) == Len(v) > 1 /\ v[1] = "\"" /\ v[Len(v)] = "\""
Inside(v) == SubSeq(v, 2, Len(v) - 1)

FromBytes(r) == IF r.ok THEN GoodBytes(r.bytes) ELSE Bad

\* between the first "(" and the first ")"
Paren(v) == LET o == IndexOf(v, "(") c == IndexOf(v, ")") IN
            IF c = 0 THEN [ok |-> FALSE, s |-> << >>] ELSE [ok |-> TRUE, s |-> SubSeq(v, o + 1, c - 1)]

B32P1 == <<"b","a","s","e","3","2","(">>    B32P2 == <<"b","3","2","(">>
B64P1 == <<"b","a","s","e","6","4","(">>    B64P2 == <<"b","6","4","(">>

\* a byte string in one word
ReadBytesWord(v) ==
  IF HasPrefix(v, B32P1) \/ HasPrefix(v, B32P2) THEN
    (IF Paren(v).ok THEN FromBytes(Base32Decode(Paren(v).s)) ELSE Bad)
  ELSE IF HasPrefix(v, B64P1) \/ HasPrefix(v, B64P2) THEN
    (IF Paren(v).ok THEN FromBytes(Base64Decode(Paren(v).s)) ELSE Bad)
  ELSE IF HasPrefix(v, <<"0","x">>) THEN FromBytes(HexDecode(SubSeq(v, 3, Len(v))))
  ELSE IF QuotedLiteral(v) THEN FromBytes(StringDecode(Inside(v)))
  ELSE Bad

BytesKeyword(v) == Str(v) \in {"base32", "b32", "base64", "b64"}
ReadEncoded(k, v) ==
  IF Str(k) \in {"base32", "b32"} THEN FromBytes(Base32Decode(v)) ELSE FromBytes(Base64Decode(v))

\* valid addresses are those of the given set of texts (the checksum is outside the model)
ReadWord(kind, v, ver, addrs) ==
  CASE kind = "const" -> (IF Str(v) \in IntConstNames THEN GoodNum(ToString(IntConstOf[Str(v)]))
                          ELSE FromNum(ParseUint64(v)))
    [] kind = "u64"   -> FromNum(ParseUint64(v))
    [] kind = "u8"    -> FromNum(ParseUint8(v))
    [] kind = "i8"    -> FromNum(ParseInt8(v))
    [] kind = "txn"   -> ReadField("txn", v, ver, LAMBDA f : TRUE, LAMBDA f : f.ver)
    [] kind = "txna"  -> ReadField("txn", v, ver, LAMBDA f : f.arr, LAMBDA f : f.ver)
    [] kind = "itxn"  -> ReadField("txn", v, ver, LAMBDA f : f.itx > 0, LAMBDA f : f.itx)
    [] kind = "label" -> [ok |-> TRUE, s |-> Str(v), b |-> << >>, c |-> "ref"]
    [] kind = "sig"   -> (IF QuotedLiteral(v) THEN GoodStr(Str(Inside(v))) ELSE Bad)
    [] kind = "addr"  -> (IF Str(v) \in addrs THEN GoodStr(Str(v)) ELSE Bad)
    [] OTHER          -> ReadField(kind, v, ver, LAMBDA f : TRUE, LAMBDA f : f.ver)

\* state of reading a line: i words consumed; err 0 or the index of the word
\* at fault
RInit == [i |-> 1, a |-> << >>, err |-> 0, nums |-> << >>, strs |-> << >>, keys |-> << >>, refs |-> << >>]

Classify(r, w, tok) ==
  CASE w.c = "num" -> [r EXCEPT !.nums = Append(@, tok)]
    [] w.c = "str" -> [r EXCEPT !.strs = Append(@, tok)]
    [] w.c = "ref" -> [r EXCEPT !.refs = Append(@, tok)]
    [] OTHER -> r

ReadOne(r, kind, line, ver, addrs) ==     \* the next word is line[r.i + 1]
  LET t == line[r.i + 1] IN
  IF kind = "bytes" /\ BytesKeyword(t.v) THEN
    LET r1 == [r EXCEPT !.i = @ + 1, !.keys = Append(@, t)] IN
    IF r1.i >= Len(line) THEN [r1 EXCEPT !.err = Len(line)]
    ELSE LET t2 == line[r1.i + 1]
             w == ReadEncoded(t.v, t2.v)
         IN IF w.ok THEN [Classify(r1, w, t2) EXCEPT !.i = r1.i + 1, !.a = Append(@, [s |-> "", b |-> w.b])]
            ELSE [r1 EXCEPT !.err = r1.i + 1]
  ELSE
    LET w == IF kind = "bytes" THEN ReadBytesWord(t.v) ELSE ReadWord(kind, t.v, ver, addrs) IN
    IF w.ok THEN [Classify(r, w, t) EXCEPT !.i = r.i + 1, !.a = Append(@, [s |-> w.s, b |-> w.b])]
    ELSE [r EXCEPT !.err = r.i + 1]

RECURSIVE ReadMany(_, _, _, _, _)
ReadMany(r, kind, line, ver, addrs) ==
  IF r.err # 0 \/ r.i >= Len(line) THEN r
  ELSE ReadMany(ReadOne(r, kind, line, ver, addrs), kind, line, ver, addrs)

RECURSIVE ReadImms(_, _, _, _, _, _)
ReadImms(r, imm, k, line, ver, addrs) ==
  IF r.err # 0 \/ k > Len(imm) THEN r
  ELSE IF imm[k].arr THEN ReadImms(ReadMany(r, imm[k].k, line, ver, addrs), imm, k + 1, line, ver, addrs)
  ELSE IF r.i >= Len(line) THEN
    (IF imm[k].opt THEN r ELSE [r EXCEPT !.err = Len(line)])
  ELSE ReadImms(ReadOne(r, imm[k].k, line, ver, addrs), imm, k + 1, line, ver, addrs)

\* the instruction meant by op with n immediates
OpMeant(o, n) ==
  LET P == {i \in 1..Len(o.alt) : o.alt[i].n = n}
  IN IF P = {} THEN o.name ELSE o.alt[CHOOSE i \in P : TRUE].op

Entry(op, a) == [op |-> op, a |-> a]
EmptyEntry == Entry("", << >>)

BranchOps == {"b", "bz", "bnz", "callsub", "switch", "match"}
TargetsOf(en) == IF en.op \in BranchOps THEN [i \in 1..Len(en.a) |-> en.a[i].s] ELSE << >>

-----------------------------------------------------------------------------
Diag(rule, l, b, e, sev) == [rule |-> rule, l |-> l, b |-> b, e |-> e, sev |-> sev]
DiagAt(rule, t, sev) == Diag(rule, t.l, t.b, t.e, sev)

Emit(c, en) ==
  LET c1 == [c EXCEPT !.list = Append(@, en), !.refc = @ \o TargetsOf(en)]
  IN IF en.op = "proto" /\ c.label # << >>
     THEN [c1 EXCEPT !.protos = Append(@, [name |-> c.label[1], a |-> en.a[1].s, r |-> en.a[2].s])]
     ELSE IF en.op = ":" THEN [c1 EXCEPT !.label = << en.a[1].s >>]
     ELSE c1

Fail(c, t) == [c EXCEPT !.diags = Append(@, DiagAt("PARSE", t, 1))]
FailEmpty(c, t) == Emit(Fail(c, t), EmptyEntry)

ModeComment == <<"#","p","r","a","g","m","a"," ","m","o","d","e"," ","l","o","g","i","c","s","i","g">>

LabelLine(c, t) ==
  LET v == SubSeq(t.v, 1, Len(t.v) - 1) IN
  IF v = << >> THEN FailEmpty(c, t)
  ELSE LET n == Str(v) IN
       [Emit(c, Entry(":", << Op0(n) >>)) EXCEPT
          !.syms = Append(@, [name |-> n, l |-> t.l, b |-> t.b, e |-> t.e, docs |-> c.docs]),
          !.docs = << >>]

PragmaLine(c, line) ==
  LET c1 == [c EXCEPT !.mcrs = Append(@, line[1])] IN
  IF Len(line) = 1 THEN FailEmpty(c1, line[1])
  ELSE IF Str(line[2].v) # "version" THEN FailEmpty(c1, line[2])
  ELSE LET c2 == [c1 EXCEPT !.mcrs = Append(@, line[2])] IN
       IF Len(line) = 2 THEN FailEmpty(c2, line[2])
       ELSE LET r == ParseUint64(line[3].v) IN
            IF ~ r.ok THEN FailEmpty(c2, line[3])
            ELSE LET c3 == [c2 EXCEPT !.nums = Append(@, line[3]), !.vtok = << line[3] >>] IN
                 IF r.n = 0 THEN FailEmpty(c3, line[3])
                 ELSE [Emit(c3, Entry("#pragma", << Op0(r.v) >>)) EXCEPT !.ver = [v |-> r.v, n |-> r.n]]

OpLine(c, line, o, addrs) ==
  LET t    == line[1]
      need == IF c.mode = "app" THEN o.app ELSE o.sig
      old  == ~ VerGe(c.ver, need)
      c1   == [c EXCEPT !.ops = Append(@, t),
                 !.diags = @ \o (IF need = 0 THEN << DiagAt("LINT0007", t, 1) >> ELSE << >>)
                             \o (IF old THEN << DiagAt("LINT0008", t, 1) >> ELSE << >>),
                 !.vers = IF old THEN Append(@, [l |-> t.l, b |-> line[1].b, e |-> line[Len(line)].e, v |-> need]) ELSE @]
      r    == ReadImms(RInit, o.imm, 1, line, c.ver, addrs)
      c2   == [c1 EXCEPT !.nums = @ \o r.nums, !.strs = @ \o r.strs, !.keys = @ \o r.keys, !.refs = @ \o r.refs]
  IN IF r.err # 0 THEN FailEmpty(c2, line[r.err])
     ELSE LET c3 == Emit(c2, Entry(OpMeant(o, Len(r.a)), r.a)) IN
          IF r.i < Len(line) THEN Fail(c3, line[r.i + 1]) ELSE c3

\* one line; raw are its tokens
AnalyseLine(c, raw, addrs) ==
  LET line == Words(raw)
      r == IF line = << >> THEN Emit(c, EmptyEntry)
           ELSE LET t == line[1] IN
             IF t.t = "C" THEN
               Emit(IF TrimSpace(t.v) = ModeComment THEN [c EXCEPT !.mode = "sig"]
                    ELSE [c EXCEPT !.docs = Append(@, t.v)], EmptyEntry)
             ELSE IF t.v[Len(t.v)] = ":" THEN LabelLine(c, t)
             ELSE IF Str(t.v) = "#pragma" THEN PragmaLine(c, line)
             ELSE IF Str(t.v) \in OpNames THEN OpLine(c, line, OpOf[Str(t.v)], addrs)
             ELSE FailEmpty(c, t)
  IN [r EXCEPT !.lines = Append(@, line)]

AnalyseLines(lines, addrs) == FoldLeft(LAMBDA c, l : AnalyseLine(c, l, addrs), AInit, lines)

-----------------------------------------------------------------------------
(* what the analysis reports about names *)

Defined(c) == {c.syms[i].name : i \in 1..Len(c.syms)}
MissRefs(c) == LET d == Defined(c) IN SelectSeq(c.refs, LAMBDA t : Str(t.v) \notin d)
ProtoOf(c, name) ==     \* the last prototype attached to the name, or << >>
  LET P == {i \in 1..Len(c.protos) : c.protos[i].name = name}
  IN IF P = {} THEN << >> ELSE << c.protos[CHOOSE i \in P : \A j \in P : j <= i] >>
RefCount(c, name) == Cardinality({i \in 1..Len(c.refc) : c.refc[i] = name})

LineBegin(line) == IF line = << >> THEN 0 ELSE line[1].b
LineEnd(line) == IF line = << >> THEN 0 ELSE line[Len(line)].e

-----------------------------------------------------------------------------
(* invariants of the analysis after n lines *)

PublishedRules == {"SYNTAX", "PARSE", "LINT0001", "LINT0002", "LINT0003", "LINT0004",
                   "LINT0005", "LINT0006", "LINT0007", "LINT0008"}

AInvariant(c, n) ==
  /\ Len(c.list) = n /\ Len(c.lines) = n
  /\ \A i \in 1..Len(c.diags) :
       LET d == c.diags[i] IN
       /\ d.rule \in PublishedRules /\ d.l < n
       /\ d.b >= LineBegin(c.lines[d.l + 1]) /\ d.e <= LineEnd(c.lines[d.l + 1]) /\ d.b <= d.e
  \* at most one parse error per line
  /\ \A i, j \in 1..Len(c.diags) :
       i # j /\ c.diags[i].rule = "PARSE" /\ c.diags[j].rule = "PARSE" => c.diags[i].l # c.diags[j].l
  \* names are defined by the listing's labels
  /\ Len(c.syms) = Cardinality({i \in 1..n : c.list[i].op = ":"})
  /\ \A i \in 1..Len(c.syms) : c.list[c.syms[i].l + 1] = Entry(":", << Op0(c.syms[i].name) >>)
  \* the referred names are among the reference words
  /\ \A i \in 1..Len(c.refc) : \E j \in 1..Len(c.refs) : Str(c.refs[j].v) = c.refc[i]
=============================================================================
