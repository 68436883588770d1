----------------------------- MODULE MCOptimize -----------------------------
(***************************************************************************)
(* Optimising.  A record holds a source and the listing the implementation *)
(* made of it.  Both listings are executed side by side: an execution is   *)
(* the sequence of instructions executed and, at conditional and multi-way *)
(* branches, of the choices taken; labels, empty lines, pragmas and        *)
(* unconditional branches are silent.  As the choice determines the        *)
(* successor, the two have the same executions iff in every reachable pair *)
(* the same instruction is next.  A retsub outside any call ends the       *)
(* execution.                                                              *)
(***************************************************************************)
EXTENDS TealLint, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)
MaxDepth == 3

VARIABLES r, pc, P, Q, x, y
vars == << r, pc, P, Q, x, y >>

SetOf(q) == {q[i] : i \in 1..Len(q)}

Listing(l) ==
  [list |-> l,
   at |-> FoldLeft(LAMBDA f, i : IF IsLabelE(l[i]) THEN (LabelName(l[i]) :> i) @@ f ELSE f, << >>, [i \in 1..Len(l) |-> i])]

Defs(l) == {LabelName(l[i]) : i \in {j \in 1..Len(l) : IsLabelE(l[j])}}
NumLabels(l) == Cardinality({j \in 1..Len(l) : IsLabelE(l[j])})
Refs(l) == UNION {SetOf(TargetsOf(l[i])) : i \in 1..Len(l)}

InScope(z, c) ==
  /\ z.errs = << >> /\ ~ \E i \in 1..Len(c.diags) : c.diags[i].rule = "PARSE"
  /\ Cardinality(Defs(c.list)) = NumLabels(c.list)
  /\ Refs(c.list) \subseteq Defs(c.list)

\* what is left of an entry when label names do not matter
Key(e) == IF e.op = ":" \/ e.op \in BranchOps THEN [op |-> e.op, a |-> [i \in 1..Len(e.a) |-> [s |-> "label", b |-> << >>]]]
          ELSE [op |-> e.op, a |-> e.a]

\* -----------------------------------------------------------------------
\* executions.  A configuration is [l, st]: the index of the next entry and
\* the return positions; l = 0 after the end, -1 when nothing visible ever
\* happens again

RECURSIVE Quiet(_, _, _)
Quiet(L, l, seen) ==
  IF l > Len(L.list) THEN 0
  ELSE IF l \in seen THEN -1
  ELSE LET e == L.list[l] IN
       IF IsNopE(e) THEN Quiet(L, l + 1, seen \union {l})
       ELSE IF e.op = "b" THEN Quiet(L, L.at[e.a[1].s], seen \union {l})
       ELSE l

Conf(L, l, st) == [l |-> Quiet(L, l, {}), st |-> st]

Shown(L, c) == IF c.l = 0 THEN [op |-> "(end)", a |-> << >>] ELSE IF c.l < 0 THEN [op |-> "(silence)", a |-> << >>] ELSE Key(L.list[c.l])

ChoicesAt(e) ==
  CASE e.op \in {"bz", "bnz", "switch", "match"} -> 0..Len(e.a)
    [] OTHER -> {0}

\* << >> when the execution ends
After(L, c, j) ==
  LET e == L.list[c.l] IN
  CASE e.op \in {"return", "err"} -> << >>
    [] e.op = "retsub" -> IF c.st = << >> THEN << >>
                          ELSE << Conf(L, c.st[Len(c.st)] + 1, SubSeq(c.st, 1, Len(c.st) - 1)) >>
    [] e.op = "callsub" -> << Conf(L, L.at[e.a[1].s], Append(c.st, c.l)) >>
    [] OTHER -> << IF j = 0 THEN Conf(L, c.l + 1, c.st) ELSE Conf(L, L.at[e.a[j].s], c.st) >>

NoConf == [l |-> 0, st |-> << >>]
NoListing == Listing(<< >>)

Init == /\ r \in 1..Len(Recs) /\ pc = "load"
        /\ P = NoListing /\ Q = NoListing /\ x = NoConf /\ y = NoConf

Load == /\ pc = "load"
        /\ LET z == Lex(Recs[r].src)
               c == AnalyseLines(LinesOf(z.toks), SetOf(Recs[r].addrs))
               ok == InScope(z, c)
           IN /\ PrintT("@@" \o ToJson([id |-> Recs[r].id, scope |-> ok, list |-> c.list]))
              /\ IF ok THEN /\ P' = Listing(c.list) /\ Q' = Listing(Recs[r].opt)
                            /\ pc' = "start"
                 ELSE pc' = "out" /\ UNCHANGED << P, Q >>
        /\ UNCHANGED << r, x, y >>

\* no unresolved reference is introduced
Resolved == Refs(Q.list) \subseteq DOMAIN Q.at

Start == /\ pc = "start" /\ Resolved
         /\ x' = Conf(P, 1, << >>) /\ y' = Conf(Q, 1, << >>)
         /\ pc' = "run" /\ UNCHANGED << r, P, Q >>

Step == /\ pc = "run" /\ x.l >= 1 /\ y.l >= 1 /\ Len(x.st) <= MaxDepth
        /\ \E j \in ChoicesAt(P.list[x.l]) :
             LET a == After(P, x, j)
                 b == After(Q, y, j)
             IN /\ a # << >> /\ b # << >>
                /\ x' = a[1] /\ y' = b[1]
        /\ UNCHANGED << r, pc, P, Q >>

Next == Load \/ Start \/ Step
Spec == Init /\ [][Next]_vars
View == << r, pc, x, y >>

-----------------------------------------------------------------------------
InvSame == pc = "run" => Shown(P, x) = Shown(Q, y) /\ Len(x.st) = Len(y.st)
InvResolved == pc = "start" => Resolved

\* the optimised listing is the original with entries left out
Kept(a, b) ==     \* b within a
  FoldLeft(LAMBDA k, e : IF k < Len(b) /\ Key(e) = Key(b[k + 1]) THEN k + 1 ELSE k, 0, a) = Len(b)
\* the version declared ahead of the first instruction stays
Leading(l) ==
  LET D == {i \in 1..Len(l) : l[i].op = "#pragma" /\ \A j \in 1..(i - 1) : l[j].op \in {"", ":", "#pragma"}}
  IN [i \in 1..Cardinality(D) |-> l[SetToSortSeq(D, <)[i]]]
InvVersion == pc = "start" => Leading(P.list) = SubSeq(Leading(Q.list), 1, Len(Leading(P.list)))
InvKept == pc = "start" => Kept(P.list, Q.list)
=============================================================================
