----------------------------- MODULE MCAnalysis -----------------------------
(***************************************************************************)
(* The analysis of a text as a state machine: token by token, line by      *)
(* line, then the lint rules.  Every record of the input file (ndjson:     *)
(* id, src, addrs) gives one initial state; the invariants are checked in  *)
(* every state and the result of every record is written out, to be        *)
(* compared with what the implementation did with the same text.           *)
(***************************************************************************)
EXTENDS TealLint, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)
Fine == IOEnv.TLA_FINE = "1"      \* check every intermediate state

VARIABLES r, pc, z, c, k
vars == << r, pc, z, c, k >>

SetOf(s) == {s[i] : i \in 1..Len(s)}

Init == /\ r \in 1..Len(Recs)
        /\ pc = "lex" /\ z = LexInit /\ c = AInit /\ k = 0

LexTok == /\ pc = "lex" /\ Fine /\ ~ LexDone(Recs[r].src, z)
          /\ z' = LexStep(Recs[r].src, z)
          /\ UNCHANGED << r, pc, c, k >>

LexEnd == /\ pc = "lex" /\ Fine /\ LexDone(Recs[r].src, z)
          /\ pc' = "line" /\ UNCHANGED << r, z, c, k >>

LexAll == /\ pc = "lex" /\ ~ Fine
          /\ z' = Lex(Recs[r].src)
          /\ pc' = "line" /\ UNCHANGED << r, c, k >>

ALines == LinesOf(z.toks)

OneLine == /\ pc = "line" /\ Fine /\ k < Len(ALines)
           /\ c' = AnalyseLine(c, ALines[k + 1], SetOf(Recs[r].addrs))
           /\ k' = k + 1 /\ UNCHANGED << r, pc, z >>

LineEndAct == /\ pc = "line" /\ Fine /\ k = Len(ALines)
              /\ pc' = "lint" /\ UNCHANGED << r, z, c, k >>

AllLines == /\ pc = "line" /\ ~ Fine
            /\ c' = AnalyseLines(ALines, SetOf(Recs[r].addrs))
            /\ k' = Len(ALines) /\ pc' = "lint" /\ UNCHANGED << r, z >>

TokOut(t) == << t.t, t.l, t.b, t.e, Str(t.v) >>
ToksOut(ts) == [i \in 1..Len(ts) |-> TokOut(ts[i])]

SymOut(cc, s) ==
  << s.name, s.l, s.b, s.e, [i \in 1..Len(s.docs) |-> Str(s.docs[i])],
     LET p == ProtoOf(cc, s.name) IN IF p = << >> THEN << >> ELSE << p[1].a, p[1].r >> >>

Result(id, zz, cc) ==
  [id |-> id, toks |-> ToksOut(zz.toks),
   diags |-> [i \in 1..Len(cc.diags) |-> LET d == cc.diags[i] IN << d.rule, d.l, d.b, d.e, d.sev >>],
   list |-> cc.list, mode |-> cc.mode, ver |-> cc.ver.v, vtok |-> ToksOut(cc.vtok),
   ops |-> ToksOut(cc.ops), nums |-> ToksOut(cc.nums), strs |-> ToksOut(cc.strs),
   keys |-> ToksOut(cc.keys), mcrs |-> ToksOut(cc.mcrs), refs |-> ToksOut(cc.refs),
   miss |-> ToksOut(MissRefs(cc)),
   syms |-> [i \in 1..Len(cc.syms) |-> SymOut(cc, cc.syms[i])],
   refc |-> cc.refc,
   vers |-> [i \in 1..Len(cc.vers) |-> << cc.vers[i].l, cc.vers[i].b, cc.vers[i].e, cc.vers[i].v >>],
   red |-> LET q == Redundants(cc) IN [i \in 1..Len(q) |-> q[i].l]]

WithFindings(zz, cc) ==
  LET syn == [i \in 1..Len(zz.errs) |-> Diag("SYNTAX", zz.errs[i].l, zz.errs[i].b, zz.errs[i].b, 1)]
  IN [cc EXCEPT !.diags = syn \o @ \o LintFindings(cc)]

LintAll == /\ pc = "lint"
           /\ c' = WithFindings(z, c)
           /\ pc' = "done"
           /\ PrintT("@@" \o ToJson(Result(Recs[r].id, z, c')))
           /\ UNCHANGED << r, z, k >>

Next == LexTok \/ LexEnd \/ LexAll \/ OneLine \/ LineEndAct \/ AllLines \/ LintAll
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* after every token, cheaply; in full when the text is used up
InvLex == /\ pc = "lex" => LexStepInvariant(Recs[r].src, z)
          /\ pc = "line" /\ k = 0 => LexInvariant(Recs[r].src, z)
InvAnalysis == pc = "line" \/ pc = "lint" => AInvariant(c, k)

\* the verdicts of the lint rules, stated once more in terms of what they mean
\* for the listing
InvLint ==
  pc = "done" =>
    LET L == c.list
        has(rule, l) == \E i \in 1..Len(c.diags) : c.diags[i].rule = rule /\ c.diags[i].l = l
    IN /\ Len(L) = k
       /\ \A l \in Dom(L) :
            \* rules speak about the lines they are about
            /\ has("LINT0001", l) => L[l + 1].op = ":"
            /\ has("LINT0002", l) => L[l + 1].op = ":" /\ ~ \E i \in 1..Len(c.refc) : c.refc[i] = LabelName(L[l + 1])
            /\ has("LINT0003", l) => ~ IsNopE(L[l + 1]) /\ l > 0
            /\ has("LINT0004", l) => L[l + 1].op = "b"
            /\ has("LINT0006", l) => L[l + 1].op = "#pragma" /\ l > 0
            /\ has("LINT0007", l) => ~ has("LINT0008", l)
       \* without findings every referenced label exists exactly once
       /\ c.diags = << >> => \A i \in 1..Len(c.refc) : Cardinality(LabelLines(L, c.refc[i])) = 1
       \* a label is never both duplicate-free and defined twice
       /\ \A i, j \in 1..Len(c.syms) : i # j /\ c.syms[i].name = c.syms[j].name => has("LINT0001", c.syms[i].l)
=============================================================================
