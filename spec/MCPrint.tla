------------------------------ MODULE MCPrint ------------------------------
(***************************************************************************)
(* Printing.  A record holds a source text and the text the implementation *)
(* printed for its listing.  Both are analysed line by line; if the source *)
(* is in scope (no parse errors, fields exist in their version and         *)
(* context), the printed text has the same listing and no parse error.     *)
(***************************************************************************)
EXTENDS TealScope, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)

VARIABLES r, pc, s, t, scope
vars == << r, pc, s, t, scope >>

SetOf(q) == {q[i] : i \in 1..Len(q)}
Addrs == SetOf(Recs[r].addrs)

Read(text) == LET z == Lex(text) IN [z |-> z, c |-> AnalyseLines(LinesOf(z.toks), Addrs)]
Nothing == [z |-> LexInit, c |-> AInit]

InScope(x) ==
  /\ x.z.errs = << >>
  /\ ~ \E i \in 1..Len(x.c.diags) : x.c.diags[i].rule = "PARSE"
  /\ EntriesOk(x.c.list)

Init == r \in 1..Len(Recs) /\ pc = "source" /\ s = Nothing /\ t = Nothing /\ scope = FALSE

ReadSource == /\ pc = "source" /\ s' = Read(Recs[r].src) /\ scope' = InScope(s')
              /\ pc' = "printed" /\ UNCHANGED << r, t >>

ParseErrors(c) == SelectSeq(c.diags, LAMBDA d : d.rule = "PARSE")

Agree(a, b) == /\ b.z.errs = << >> /\ ParseErrors(b.c) = << >> /\ a.c.list = b.c.list

FirstDiff(a, b) ==
  LET D == {i \in 1..Len(a) : i > Len(b) \/ a[i] # b[i]}
  IN IF D = {} THEN Len(a) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j

ReadPrinted == /\ pc = "printed" /\ t' = Read(Recs[r].printed) /\ pc' = "done"
               /\ PrintT("@@" \o ToJson([id |-> Recs[r].id, scope |-> scope, ok |-> Agree(s, t'),
                                         line |-> FirstDiff(s.c.list, t'.c.list) - 1, n |-> Len(s.c.list),
                                         list |-> s.c.list]))
               /\ UNCHANGED << r, s, scope >>

Next == ReadSource \/ ReadPrinted
Spec == Init /\ [][Next]_vars
TypeOk == pc \in {"source", "printed", "done"} /\ (pc # "source" => Len(s.c.list) = Len(LinesOf(s.z.toks)))
=============================================================================
