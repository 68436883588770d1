------------------------------- MODULE MCLspX -------------------------------
(***************************************************************************)
(* All sessions up to a length: at every step any message of the alphabet  *)
(* (input file: one record {alphabet, depth, addrs}).  Every maximal       *)
(* session is written out with the answers it has to get.                  *)
(***************************************************************************)
EXTENDS LspServer, Json, IOUtils

In == ndJsonDeserialize(IOEnv.TLA_IN)[1]
Alphabet == In.alphabet
Addrs == {In.addrs[x] : x \in 1..Len(In.addrs)}

VARIABLES h, outs, st, latest
vars == << h, outs, st, latest >>

Init == h = << >> /\ outs = << >> /\ st = LspInit /\ latest = NoLatest

Do(a) ==
  LET m == Alphabet[a]
      o == LspStep(st, m, Addrs)
  IN /\ st' = o.st
     /\ h' = Append(h, a)
     /\ outs' = Append(outs, [o |-> Seen(m, o.o), n |-> o.n, v |-> ToJson(AnswerContent(st, m, o.o))])
     /\ latest' = Track(latest, m, st.shut)
     /\ (Len(h') = In.depth \/ o.st.over) =>
          PrintT("@@" \o ToJson([id |-> 0, h |-> h', outs |-> outs', code |-> o.st.code]))

Next == Len(h) < In.depth /\ ~ st.over /\ \E a \in 1..Len(Alphabet) : (In.first = 0 \/ Len(h) > 0 \/ a = In.first) /\ Do(a)
Spec == Init /\ [][Next]_vars

\* every request is answered once, nothing else is
InvAnswered == \A x \in 1..Len(h) : IsRequest(Alphabet[h[x]]) <=> outs[x].o # "none"
\* the text held for a document is the latest one, and closed documents are gone
InvFresh == /\ DOMAIN st.docs = DOMAIN latest
            /\ \A u \in DOMAIN latest : st.docs[u].src = latest[u]
\* equal histories of texts give equal answers: an answer depends only on the
\* latest text of its document (and on the configuration)
InvCode == (st.over => (st.code = 0 <=> st.shut)) /\ (~ st.over => st.code = 0)

Msg == Alphabet[h'[Len(h')]]
Isolated == \A u \in DOMAIN st.docs : u # Msg.uri => u \in DOMAIN st'.docs /\ st'.docs[u] = st.docs[u]
PropIsolated == [][Isolated]_vars
Ends == (st.shut => st'.shut) /\ (st'.over => Msg.m = "exit")
PropEnds == [][Ends]_vars
=============================================================================
