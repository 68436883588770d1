------------------------------- MODULE MCLsp -------------------------------
(***************************************************************************)
(* Sessions with the language server.  Every record of the input file      *)
(* (id, addrs, msgs) gives one behaviour, one step per message; what the   *)
(* server has to answer is written out and compared with what the          *)
(* implementation answered.                                                *)
(***************************************************************************)
EXTENDS LspServer, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)

VARIABLES r, i, st, sent, latest
vars == << r, i, st, sent, latest >>

SetOf(s) == {s[x] : x \in 1..Len(s)}
Msg == Recs[r].msgs[i]
Addrs == SetOf(Recs[r].addrs)

Init == /\ r \in 1..Len(Recs) /\ i = 1 /\ st = LspInit
        /\ sent = [result |-> 0, error |-> 0] /\ latest = NoLatest

Answer(ident, s, m, o) ==
  [id |-> ident, i |-> i, o |-> Seen(m, o.o), n |-> o.n, v |-> AnswerContent(s, m, o.o)]

Step == /\ i <= Len(Recs[r].msgs) /\ ~ st.over
        /\ LET o == LspStep(st, Msg, Addrs) IN
           /\ st' = o.st
           /\ PrintT("@@" \o ToJson(Answer(Recs[r].id, st, Msg, o)))
           /\ sent' = IF Msg.id /\ o.o # "none" THEN [sent EXCEPT ![o.o] = @ + 1] ELSE sent
           /\ latest' = Track(latest, Msg, st.shut)
        /\ i' = i + 1 /\ UNCHANGED r

Next == Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every request is answered exactly once
Requests == Cardinality({x \in 1..(i - 1) : IsRequest(Recs[r].msgs[x])})
InvAnswered == sent.result + sent.error = Requests

\* the analysis held for a document is that of its latest text
InvFresh == /\ DOMAIN st.docs = DOMAIN latest
            /\ \A u \in DOMAIN latest : st.docs[u].src = latest[u]

\* a message about one document leaves the others alone
Isolated == \A u \in DOMAIN st.docs : u # Msg.uri => u \in DOMAIN st'.docs /\ st'.docs[u] = st.docs[u]
PropIsolated == [][Isolated]_vars

\* only changes to documents change what is analysed
ReadOnly == Msg.m \notin {"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"} => st'.docs = st.docs
PropReadOnly == [][ReadOnly]_vars

\* a server that is shut down stays so, and only exit ends it
Ends == (st.shut => st'.shut) /\ (st'.over => st.over \/ Msg.m = "exit")
PropEnds == [][Ends]_vars

-----------------------------------------------------------------------------
(* properties of the answers, evaluated for the message about to be handled *)

Here == i <= Len(Recs[r].msgs) /\ ~ st.over /\ Msg.k = "ok" /\ Known(st, Msg.uri)
Cur == st.docs[Msg.uri].c
CurSrc == st.docs[Msg.uri].src

InvNavigation ==
  Here /\ Msg.m = "textDocument/documentHighlight" =>
    LET h == Highlight(Cur, Msg.l, Msg.ch) IN
    \* the same list from each of its members, and it holds the position asked for
    /\ \A x \in 1..Len(h) : Highlight(Cur, h[x][1], h[x][2]) = h
    /\ h # << >> => \E x \in 1..Len(h) : h[x][1] = Msg.l /\ h[x][2] <= Msg.ch /\ Msg.ch <= h[x][3] + 1
    \* definitions are among the highlights
    /\ LET d == Definition(Cur, Msg.l, Msg.ch) IN \A x \in 1..Len(d) : \E y \in 1..Len(h) : h[y] = d[x]

\* a word that can be a label's name
LabelWord(s) == /\ s # << >> /\ s[1] # "\"" /\ ~ HasPrefix(s, << "/", "/" >>)
                /\ \A x \in 1..Len(s) : ~ IsBlank(s[x]) /\ ~ IsEolChar(s[x])

InvRename ==
  Here /\ Msg.m = "textDocument/rename" /\ LabelWord(Msg.name) =>
    LET n == NameAt(Cur, Msg.l, Msg.ch)
        e == RenameEdits(Cur, Msg.l, Msg.ch, Msg.name)
    IN IF n = << >> THEN e = << >>
       ELSE Str(Msg.name) \notin Defined(Cur) /\ Len(RefsNamed(Cur, Str(Msg.name))) = 0 =>
            LET d == Analyse(ApplyEdits(CurSrc, e), Addrs) IN RenameCorrect(Cur, d, n[1], Str(Msg.name))

InvActions ==
  Here /\ Msg.m = "textDocument/codeAction" =>
    LET A == Actions(Cur, Rng(Msg)) IN
    \A x \in 1..Len(A) : ActionFixes(Cur, IF A[x].k = "create" THEN Analyse(Append(CurSrc, "\n"), Addrs) ELSE Cur, Analyse(AfterAction(CurSrc, Cur, A[x]), Addrs), A[x])

InvLabelRemoved ==
  Here /\ Msg.m = "workspace/executeCommand" /\ Msg.cmd = "teal.label.remove" =>
    LabelRemoved(Cur, Analyse(AfterCommand(CurSrc, Cur, Msg), Addrs), Str(CommandName(Msg)))

InvSemantic == Here /\ Msg.m = "textDocument/semanticTokens/full" => SemanticInvariant(Cur)

\* what is announced is answered, for an open document and proper parameters
InvAnnounced ==
  Here /\ ~ st.shut /\ Msg.m \in Announced(st.cfg) /\ (Msg.m = "workspace/executeCommand" => Msg.n = 1 /\ Msg.cmd \in Commands)
    => LspStep(st, Msg, Addrs).o = "result"

\* what completion offers for a field operand is what the analysis accepts there
InvCompletion ==
  Here /\ Msg.m = "textDocument/completion" =>
    LET o == Completion(Cur, Msg.l, Msg.ch) IN
    o.k = "arg" /\ IsFieldKind(o.a) =>
      LET tab == FieldTable(o.a) IN
      \A x \in 1..Len(tab) :
        LET name == Split(<< tab[x].name >>) IN
        (\E y \in 1..Len(o.v) : o.v[y][1] = tab[x].name) <=> ReadWord(o.a, name, Cur.ver, {}).ok
=============================================================================
