------------------------------ MODULE MCFormat ------------------------------
(***************************************************************************)
(* Formatting.  A record holds a document, the document after applying the *)
(* edit the server answered and, formatted once more, the document after   *)
(* that.  The layout is the formatter's choice; what has to be kept is the *)
(* sequence of lines that hold something: their words and comments, blanks *)
(* at the end of a line aside.  The lines are read one by one.             *)
(***************************************************************************)
EXTENDS TealLint, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)

VARIABLES r, pc, a, b, i
vars == << r, pc, a, b, i >>

SetOf(q) == {q[x] : x \in 1..Len(q)}
IsBlankChar(x) == x \in {" ", "\t"}

RECURSIVE Trimmed(_)
Trimmed(v) == IF v # << >> /\ IsBlankChar(v[Len(v)]) THEN Trimmed(SubSeq(v, 1, Len(v) - 1)) ELSE v

\* the lines that hold something, as sequences of [t, v]; the line end added
\* makes a literal left open in the last line one like any other
Held(src) ==
  LET ls == SelectSeq(LinesOf(Lex(Append(src, "\n")).toks), LAMBDA ln : ln # << >>)
  IN [x \in 1..Len(ls) |-> [y \in 1..Len(ls[x]) |-> [t |-> ls[x][y].t, v |-> Trimmed(ls[x][y].v)]]]

Init == r \in 1..Len(Recs) /\ pc = "read" /\ a = << >> /\ b = << >> /\ i = 0

Read == /\ pc = "read" /\ a' = Held(Recs[r].src) /\ b' = Held(Recs[r].out)
        /\ pc' = "line" /\ i' = 0 /\ UNCHANGED r

\* the next line is the same in both
Line == /\ pc = "line" /\ i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1]
        /\ i' = i + 1 /\ UNCHANGED << r, pc, a, b >>

Same == i = Len(a) /\ i = Len(b)
Stuck == ~ (i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1])

Done == /\ pc = "line" /\ Stuck /\ pc' = "done"
        /\ LET x == Analyse(Append(Recs[r].src, "\n"), {})
               y == Analyse(Append(Recs[r].out, "\n"), {})
               ops(c) == SelectSeq(c.list, LAMBDA e : e.op # "")
           IN PrintT("@@" \o ToJson([id |-> Recs[r].id, same |-> Same, at |-> i,
                                     program |-> ops(x) = ops(y), stable |-> Recs[r].out = Recs[r].again]))
        /\ UNCHANGED << r, a, b, i >>

Next == Read \/ Line \/ Done
Spec == Init /\ [][Next]_vars

\* the lines compared so far agree; equal words give equal programs
InvSoFar == \A x \in 1..i : a[x] = b[x]
=============================================================================
