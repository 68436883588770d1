------------------------------ MODULE DapServer ------------------------------
(***************************************************************************)
(* The debug adapter: a session over the machine of TealVm.                *)
(*                                                                         *)
(* A message is [c, k, z, cz, prog, n, ls, kind, s, cnt]:                  *)
(*   c     the command                                                     *)
(*   k     "ok", "bad" (arguments of the wrong types), "missing" (no       *)
(*         arguments), or "none" for what is not a request                 *)
(*   z, cz initialize: lines / columns start at 0                          *)
(*   prog  launch: the number of the program, 0 when it cannot be read     *)
(*   n     thread (next, continue, stackTrace) or frame (scopes,           *)
(*         variables)                                                      *)
(*   ls    setBreakpoints: the lines as sent                               *)
(*   kind  variables: "State", "Stack", "Scratch", "Trace" or "" for a     *)
(*         reference that belongs to no scope                              *)
(*   s, cnt  variables: start and count, -1 when absent                    *)
(* The state is [lz, cz, neg, on, p, m, prog, lost]: the first line's and  *)
(* column's number, whether they were negotiated, whether a program was    *)
(* launched, the program, the machine, the program's number, and whether   *)
(* the machine was driven out of what the specification says about it.     *)
(* Outputs are responses [k |-> "r", ok, body] and events                  *)
(* [k |-> "e", ev, body].                                                  *)
(***************************************************************************)
EXTENDS TealVm

NoProg == [list |-> << >>]
NoVm == [br |-> << >>]
DapInit == [lz |-> 0, cz |-> 0, neg |-> FALSE, on |-> FALSE, p |-> NoProg, m |-> NoVm, prog |-> 0, lost |-> FALSE]

Plain == {"disconnect", "evaluate", "setFunctionBreakpoints", "setInstructionBreakpoints", "setExceptionBreakpoints",
          "configurationDone"}
NeedProgram == {"pause", "next"}
WithArguments == {"initialize", "launch", "setBreakpoints", "continue", "next", "variables", "scopes", "stackTrace"}
Inspections == {"threads", "stackTrace", "scopes", "variables"}
DapCommands == Plain \union NeedProgram \union WithArguments \union Inspections

-----------------------------------------------------------------------------
(* what is shown *)

HasBranch(st, id) == st.on /\ id >= 0 /\ id < Len(st.m.br)
BranchOf(st, id) == st.m.br[id + 1]

Threads(st) == IF st.on THEN [i \in 1..Len(st.m.br) |-> st.m.br[i].id] ELSE << >>

\* where a line of the program is for the client; -1 when there is none
ClientLine(st, l) == IF l >= 0 /\ l < Size(st.p) THEN l + st.lz ELSE -1

\* innermost first; the frame of a call is at the line of the call and has
\* the name of the caller
StackTrace(st, id) ==
  IF ~ HasBranch(st, id) THEN << >>
  ELSE LET b == BranchOf(st, id)
           n == Len(b.frames)
       IN << << b.name, ClientLine(st, b.line) >> >>
          \o [i \in 1..n |-> LET f == b.frames[n + 1 - i] IN << f.name, ClientLine(st, f.ret) >>]

Scopes(st, id) ==
  IF ~ HasBranch(st, id) THEN << >>
  ELSE << << "State", 0 >>, << "Stack", Len(BranchOf(st, id).stack) >>, << "Scratch", 256 >>,
          << "Trace", Len(BranchOf(st, id).trace) >> >>

\* the positions (from 0) of n that a request for a sub-range selects
Window(n, s, cnt) ==
  LET a == IF s > 0 THEN (IF s > n THEN n ELSE s) ELSE 0
      e == IF cnt > 0 /\ cnt < n - a THEN a + cnt ELSE n
  IN [i \in 1..(e - a) |-> a + i - 1]

Variables(st, id, kind, s, cnt) ==
  IF ~ HasBranch(st, id) \/ kind = "" THEN << >>
  ELSE
    LET b == BranchOf(st, id)
        n == Len(b.stack)
        val(v) == << v.t, v.k, v.s, v.b >>
    IN CASE kind = "State" -> << << "Budget", b.budget >> >>
         [] kind = "Stack" ->
              (LET w == Window(n, s, cnt) IN [i \in 1..Len(w) |-> << n - 1 - w[i], val(b.stack[n - w[i]]) >>])
         [] kind = "Scratch" ->
              (LET w == SelectSeq(Window(256, s, cnt), LAMBDA i : i \in DOMAIN st.m.scratch) IN
               [i \in 1..Len(w) |-> << w[i], val(st.m.scratch[w[i]]) >>])
         [] kind = "Trace" ->
              (LET w == Window(Len(b.trace), s, cnt) IN [i \in 1..Len(w) |-> << w[i], b.trace[w[i] + 1] >>])

\* a branch that stopped inside an instruction shows something unspecified
Vague(st, msg) ==
  /\ msg.c \in {"stackTrace", "scopes", "variables"}
  /\ HasBranch(st, msg.n)
  /\ \/ BranchOf(st, msg.n).dirty
     \/ msg.c = "variables" /\ msg.kind = "Scratch" /\ \E i \in 1..Len(st.m.br) : st.m.br[i].dirty

-----------------------------------------------------------------------------
(* execution *)

ToLines(st, ls) == [i \in 1..Len(ls) |-> ls[i] - st.lz]

Resp(ok, body) == [k |-> "r", ok |-> ok, body |-> body]
Event(ev, body) == [k |-> "e", ev |-> ev, body |-> body]

\* a stop: the reason, the thread (-1: none), the breakpoints hit
Stop(reason, tid, hits, asked) == Event("stopped", << reason, tid, SetToSeq(hits), asked >>)
SomeStop == Event("stopped", << "*", -1, << >>, -1 >>)

Exception(m) == Stop("exception", m.sel, {}, -1)

\* the stop after running
RunStop(m, asked) ==
  IF m.undef THEN SomeStop
  ELSE IF m.err THEN Exception(m)
  ELSE IF m.trig # {} THEN Stop("breakpoint", -1, m.trig, asked)
  ELSE Stop("breakpoint", -1, {}, asked)
StepStop(m) == IF m.undef THEN SomeStop ELSE IF m.err THEN Exception(m) ELSE Stop("step", m.sel, {}, -1)

Out(st, outs) == [st |-> st, outs |-> outs, run |-> FALSE]
Lost(st) == [st EXCEPT !.lost = st.m.undef]

\* a message handled: the next state, what is sent, and whether the machine
\* is set running (then the stop follows when it has run)
DapStep(st, msg, progs) ==
  IF msg.k = "none" THEN Out(st, << >>)
  ELSE IF msg.c \notin DapCommands THEN Out(st, << Resp(FALSE, << >>) >>)
  ELSE IF msg.k = "bad" /\ msg.c \in WithArguments THEN Out(st, << Resp(FALSE, << >>) >>)
  ELSE IF msg.c \in Plain THEN Out(st, << Resp(TRUE, << >>) >>)
  ELSE IF msg.c = "initialize" THEN
    Out([st EXCEPT !.lz = IF msg.z THEN @ ELSE 1, !.cz = IF msg.cz THEN @ ELSE 1, !.neg = TRUE],
        << Resp(TRUE, << >>), Event("initialized", << >>) >>)
  ELSE IF msg.c = "launch" THEN
    IF msg.prog = 0 THEN Out(st, << Resp(FALSE, << >>) >>)
    ELSE LET m == VmInit(progs[msg.prog]) IN
         Out([st EXCEPT !.on = TRUE, !.p = progs[msg.prog], !.m = m, !.prog = msg.prog, !.lost = FALSE],
             << Resp(TRUE, << >>), Event("process", << >>), Stop("entry", m.sel, {}, -1) >>)
  ELSE IF ~ st.on /\ msg.c \in NeedProgram THEN Out(st, << Resp(FALSE, << >>) >>)
  ELSE IF msg.c = "setBreakpoints" THEN
    IF ~ st.on THEN Out(st, << Resp(TRUE, << >>) >>)
    ELSE LET ls == ToLines(st, msg.ls) IN
         Out([st EXCEPT !.m = VmSetBreakpoints(st.p, @, ls)],
             << Resp(TRUE, [i \in 1..Len(ls) |-> << msg.ls[i], Accepts(st.p, ls[i]) >>]) >>)
  ELSE IF msg.c = "threads" THEN Out(st, << Resp(TRUE, Threads(st)) >>)
  ELSE IF msg.c = "stackTrace" THEN Out(st, << Resp(TRUE, StackTrace(st, msg.n)) >>)
  ELSE IF msg.c = "scopes" THEN Out(st, << Resp(TRUE, Scopes(st, msg.n)) >>)
  ELSE IF msg.c = "variables" THEN Out(st, << Resp(TRUE, Variables(st, msg.n, msg.kind, msg.s, msg.cnt)) >>)
  ELSE IF msg.c = "pause" THEN Out(st, << Resp(TRUE, << >>), IF st.lost THEN SomeStop ELSE Stop("pause", st.m.sel, {}, -1) >>)
  ELSE IF msg.c = "next" THEN
    IF st.lost THEN Out(st, << Resp(TRUE, << >>), SomeStop >>)
    ELSE LET m == VmStep(st.p, VmSwitch(st.m, msg.n)) IN
         Out(Lost([st EXCEPT !.m = m]), << Resp(TRUE, << >>), StepStop(m) >>)
  ELSE \* continue
    IF ~ st.on THEN Out(st, << Resp(TRUE, << >>) >>)
    ELSE IF st.lost THEN Out(st, << Resp(TRUE, << >>), SomeStop >>)
    ELSE IF VmRunning(st.m) THEN [st |-> st, outs |-> << Resp(TRUE, << >>) >>, run |-> TRUE]
    ELSE Out(st, << Resp(TRUE, << >>), RunStop(st.m, msg.n) >>)

-----------------------------------------------------------------------------
(* what every session must keep to *)

\* a request is answered exactly once, with the events that belong to it
ProtocolOk(msg, st, outs) ==
  LET rs == SelectSeq(outs, LAMBDA o : o.k = "r")
      es == SelectSeq(outs, LAMBDA o : o.k = "e")
      names == [i \in 1..Len(es) |-> es[i].ev]
      ok == rs # << >> /\ rs[1].ok
  IN /\ Len(rs) = (IF msg.k = "none" THEN 0 ELSE 1)
     /\ outs # << >> => outs[1].k = "r"
     /\ names = (IF ~ ok THEN << >>
                 ELSE IF msg.c = "initialize" THEN << "initialized" >>
                 ELSE IF msg.c = "launch" THEN << "process", "stopped" >>
                 ELSE IF msg.c \in {"pause", "next"} \/ (msg.c = "continue" /\ st.on) THEN << "stopped" >>
                 ELSE << >>)
=============================================================================
