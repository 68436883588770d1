------------------------------- MODULE MCSarif -------------------------------
(***************************************************************************)
(* Scans.  Every record (id, addrs, single, tree) is a tree; the entries   *)
(* are visited in every order when there are few (order = "any"), in the   *)
(* given one otherwise.  Every final report is written out.                *)
(***************************************************************************)
EXTENDS TealSarif, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)
SetOf(s) == {s[x] : x \in 1..Len(s)}

VARIABLES r, left, rep
vars == << r, left, rep >>

Tree == Recs[r].tree
Init == r \in 1..Len(Recs) /\ left = 1..Len(Recs[r].tree) /\ rep = ReportInit

Visit(x) == /\ x \in left
            /\ rep' = ScanEntry(rep, Tree[x], Recs[r].single, SetOf(Recs[r].addrs))
            /\ left' = left \ {x}
            /\ (left' = {}) => PrintT("@@" \o ToJson([id |-> Recs[r].id, arts |-> rep'.arts, res |-> rep'.res]))
            /\ UNCHANGED r
Next == left # {} /\ IF Recs[r].order = "any" THEN \E x \in left : Visit(x) ELSE Visit(Min(left))
Spec == Init /\ [][Next]_vars

\* no artifact twice, and only what has been visited
InvArtifacts == /\ Cardinality(SetOf(rep.arts)) = Len(rep.arts)
                /\ SetOf(rep.arts) = {Tree[x].path : x \in {y \in (1..Len(Tree)) \ left : Scanned(Tree[y], Recs[r].single)}}
\* a result names a declared rule, an artifact that is there, and a place from 1 on
InvResults == \A i \in 1..Len(rep.res) :
                LET q == rep.res[i] IN
                /\ q.rule \in SetOf(Rules) /\ q.level \in {"error", "warning", "note"}
                /\ q.line >= 1 /\ q.col >= 1 /\ q.art >= 0 /\ q.art < Len(rep.arts)
\* what was reported stays
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Growing == Prefix(rep.arts, rep'.arts) /\ Prefix(rep.res, rep'.res)
PropGrowing == [][Growing]_vars
=============================================================================
