------------------------------ MODULE MCCursor ------------------------------
(***************************************************************************)
(* Reading the tokens of a text one by one, forth and back.  The reader    *)
(* stands before the first token, on a token, or behind the last one;      *)
(*   "s"  goes on to the next token, if there is one                       *)
(*   "r"  goes back to the token before, if there is one                   *)
(* Every history of n moves over every text of the input (ndjson: id, src, *)
(* n) is explored, checked, and written out for replay.                    *)
(***************************************************************************)
EXTENDS TealLexer, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)

VARIABLES r, toks, at, h
vars == << r, toks, at, h >>

N == Len(toks)
Moves == {"s", "r"}

\* at: 0 before the first token, k on the k-th, N + 1 behind the last
Go(a, m) == IF m = "s" THEN (IF a > N THEN a ELSE a + 1)
            ELSE (IF a <= 1 THEN a ELSE a - 1)
\* does the move give a token
Gives(a, m) == IF m = "s" THEN Go(a, m) \in 1..N ELSE a > 1

Init == /\ r \in 1..Len(Recs) /\ toks = Lex(Recs[r].src).toks /\ at = 0 /\ h = << >>

Move(m) == /\ Len(h) < Recs[r].n
           /\ at' = Go(at, m)
           /\ h' = Append(h, [m |-> m, ok |-> Gives(at, m), at |-> at'])
           /\ UNCHANGED << r, toks >>
           /\ Len(h') = Recs[r].n => PrintT("@@" \o ToJson([id |-> Recs[r].id, h |-> h']))

Next == \E m \in Moves : Move(m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOk == at \in 0..(N + 1)

\* going back gives the token before; a move that gives nothing leaves the
\* reader on an end; going on from a token never skips one
Steps == \A i \in 2..Len(h) :
           /\ h[i].m = "s" /\ h[i].ok => h[i].at = h[i - 1].at + 1
           /\ h[i].m = "r" /\ h[i].ok => h[i].at = h[i - 1].at - 1
           /\ h[i].m = "s" /\ ~ h[i].ok => h[i].at = N + 1
           /\ h[i].m = "r" /\ ~ h[i].ok => h[i].at <= 1
=============================================================================
