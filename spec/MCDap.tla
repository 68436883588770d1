-------------------------------- MODULE MCDap --------------------------------
(***************************************************************************)
(* Debugging sessions.  Every record (id, addrs, srcs, msgs, cap) gives    *)
(* one behaviour: the programs are analysed, the messages handled one by   *)
(* one up to a number of branches, a continue broken up into the steps of  *)
(* the machine.  What has to be sent for every message is written out.     *)
(***************************************************************************)
EXTENDS DapServer, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)
MaxRun == 900

VARIABLES r, pc, ps, st, i, n, outs
vars == << r, pc, ps, st, i, n, outs >>
DapView == << r, pc, st, i, n, outs >>

SetOf(s) == {s[x] : x \in 1..Len(s)}
Msg == Recs[r].msgs[i]
More == i <= Len(Recs[r].msgs)

Init == r \in 1..Len(Recs) /\ pc = "load" /\ ps = << >> /\ st = DapInit /\ i = 1 /\ n = 0 /\ outs = << >>

Load == /\ pc = "load"
        /\ ps' = [x \in 1..Len(Recs[r].srcs) |-> ProgramOf(Analyse(Recs[r].srcs[x], SetOf(Recs[r].addrs)))]
        /\ pc' = "msg" /\ UNCHANGED << r, st, i, n, outs >>

Say(s, o, what) ==
  PrintT("@@" \o ToJson([id |-> Recs[r].id, i |-> i, what |-> what, neg |-> s.neg, cz |-> s.cz, prog |-> s.prog,
                         vague |-> (s.lost \/ Vague(s, Msg)),
                         outs |-> [x \in 1..Len(o) |-> [o[x] EXCEPT !.body = ToJson(@)]]]))

Cut(s) == s.on /\ Len(s.m.br) > Recs[r].cap

Handle == /\ pc = "msg" /\ More
          /\ LET o == DapStep(st, Msg, ps) IN
             /\ st' = o.st /\ outs' = o.outs
             /\ IF o.run THEN pc' = "run" /\ n' = 0 /\ i' = i
                ELSE /\ Say(o.st, o.outs, IF Cut(o.st) THEN "cut" ELSE "ok")
                     /\ pc' = (IF Cut(o.st) THEN "stop" ELSE "msg") /\ i' = i + 1 /\ n' = n
          /\ UNCHANGED << r, ps >>

Run == /\ pc = "run"
       /\ LET m == VmStep(st.p, st.m)
              s == Lost([st EXCEPT !.m = m])
              o == Append(outs, RunStop(m, Msg.n))
          IN /\ st' = s
             /\ IF Cut(s) \/ n > MaxRun THEN Say(s, outs, "cut") /\ pc' = "stop" /\ UNCHANGED << i, n, outs >>
                ELSE IF VmStops(m) THEN Say(s, o, "ok") /\ outs' = o /\ pc' = "msg" /\ i' = i + 1 /\ n' = n
                ELSE pc' = "run" /\ n' = n + 1 /\ UNCHANGED << i, outs >>
       /\ UNCHANGED << r, ps >>

Next == Load \/ Handle \/ Run
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every request has been answered once, with its events
InvProtocol == (pc = "msg" /\ i > 1) => ProtocolOk(Recs[r].msgs[i - 1], st, outs)
\* the machine is a machine
InvMachine == st.on => VmInvariant(st.p, st.m, MaxBudget)
\* what stopped at breakpoints is there
Stopping == (st'.on /\ ~ st'.lost /\ (pc = "run" \/ (pc = "msg" /\ More /\ Msg.c = "next" /\ Msg.k \in {"ok", "missing"}))) => StopOk(st'.m)
PropStop == [][Stopping]_vars
\* looking changes nothing
Looking == (pc = "msg" /\ More /\ pc' = "msg" /\ (Msg.k # "ok" \/ Msg.c \in Inspections \union Plain \union {"pause"})
            /\ Msg.c \notin {"initialize", "launch", "setBreakpoints", "next", "continue"}) => st' = st
PropLooking == [][Looking]_vars
\* breakpoints change what stops and nothing else
Breaking == (pc = "msg" /\ More /\ Msg.c = "setBreakpoints") =>
              st' = [st EXCEPT !.m = st'.m] /\ (st.on => st'.m = [st.m EXCEPT !.bps = st'.m.bps])
PropBreaking == [][Breaking]_vars
\* a step of a running thread executes one instruction of it and none of another
Executed(s) == [x \in 1..Len(s.m.br) |-> Len(s.m.br[x].trace)]
Stepping == (pc = "msg" /\ More /\ Msg.c = "next" /\ Msg.k = "ok" /\ st.on /\ ~ st.lost /\ ~ st'.lost) =>
              /\ \A x \in 1..Len(st.m.br) : st'.m.br[x].trace # st.m.br[x].trace =>
                   /\ Len(st'.m.br[x].trace) = Len(st.m.br[x].trace) + 1
                   /\ \A y \in 1..Len(st.m.br) : y # x => st'.m.br[y].trace = st.m.br[y].trace
              /\ (HasBranch(st, Msg.n) /\ AtOp(st.p, SkipNops(st.p, BranchOf(st, Msg.n)))) =>
                   \A x \in 1..Len(st.m.br) : x # Msg.n + 1 => st'.m.br[x].trace = st.m.br[x].trace
PropStepping == [][Stepping]_vars
\* a sub-range of the variables is that part of all of them
InvPaging ==
  (pc = "msg" /\ More /\ Msg.k = "ok" /\ Msg.c = "variables" /\ Msg.kind \in {"Stack", "Trace"} /\ ~ st.lost) =>
    LET all == Variables(st, Msg.n, Msg.kind, -1, -1)
        part == Variables(st, Msg.n, Msg.kind, Msg.s, Msg.cnt)
        a == IF Msg.s > 0 THEN Msg.s ELSE 0
    IN /\ \A x \in 1..Len(part) : part[x] = all[a + x]
       /\ Len(part) = (IF a >= Len(all) THEN 0 ELSE IF Msg.cnt > 0 THEN Min({Msg.cnt, Len(all) - a}) ELSE Len(all) - a)
=============================================================================
