------------------------------ MODULE MCBuild ------------------------------
(***************************************************************************)
(* Compiling an expression.  A record holds an expression and the text the *)
(* implementation printed for it.  The expression is unfolded from the     *)
(* left, one node a step; the instructions come out in order.  Then the    *)
(* printed text is read by the specification's own analysis.               *)
(***************************************************************************)
EXTENDS TealBuild, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)

VARIABLES r, pc, todo, out
vars == << r, pc, todo, out >>

Defs == Recs[r].defs

Init == r \in 1..Len(Recs) /\ pc = "unfold" /\ todo = << Recs[r].root >> /\ out = << >>

Emit1 == /\ pc = "unfold" /\ todo # << >> /\ IsLeaf(Head(todo))
         /\ out' = Append(out, Leaf(Head(todo))) /\ todo' = Tail(todo) /\ UNCHANGED << r, pc >>

Unfold == /\ pc = "unfold" /\ todo # << >> /\ ~ IsLeaf(Head(todo))
          /\ todo' = Parts(Head(todo), Defs) \o Tail(todo) /\ UNCHANGED << r, pc, out >>

Reading == LET z == Lex(Recs[r].text) IN [z |-> z, c |-> AnalyseLines(LinesOf(z.toks), {})]

FirstDiff(a, b) ==
  LET D == {i \in 1..Len(a) : i > Len(b) \/ a[i] # b[i]}
  IN IF D = {} THEN Len(a) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j

Done == /\ pc = "unfold" /\ todo = << >> /\ pc' = "done"
        /\ LET x == Reading
               clean == x.z.errs = << >> /\ ~ \E i \in 1..Len(x.c.diags) : x.c.diags[i].rule = "PARSE"
           IN PrintT("@@" \o ToJson([id |-> Recs[r].id, scope |-> EntriesOk(out), same |-> clean /\ x.c.list = out,
                                     line |-> FirstDiff(out, x.c.list) - 1, list |-> out, lint |-> LintOf(out)]))
        /\ UNCHANGED << r, todo, out >>

Next == Emit1 \/ Unfold \/ Done
Spec == Init /\ [][Next]_vars

\* what came out stays, and nothing comes out but from the front of what is left
PropGrows == [][\/ out' = out \/ (Len(out') = Len(out) + 1 /\ SubSeq(out', 1, Len(out)) = out)]_vars
TypeOk == pc \in {"unfold", "done"} /\ \A i \in 1..Len(out) : out[i].op \in OpNames \cup {"", ":", "#pragma"}
=============================================================================
