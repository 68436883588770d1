-------------------------------- MODULE MCVm --------------------------------
(***************************************************************************)
(* The machine driven by commands.  Every record (id, src, addrs, cmds,    *)
(* budget, cap) gives one behaviour: the program is analysed, the commands *)
(* are executed, up to a number of branches; running is broken up into its *)
(* steps.  The machine after every command is written out.                 *)
(***************************************************************************)
EXTENDS TealVm, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TLA_IN)
MaxRun == 900       \* steps of one run command

VARIABLES r, pc, p, m, k, n
vars == << r, pc, p, m, k, n >>
VmView == << r, pc, m, k, n >>

SetOf(s) == {s[i] : i \in 1..Len(s)}
NoVm == [br |-> << >>]
NoProg == [list |-> << >>]

ValOut(v) == << v.t, v.k, v.s, v.b >>
BranchOut(b) ==
  [id |-> b.id, line |-> b.line, name |-> b.name, budget |-> b.budget, dirty |-> b.dirty,
   stack |-> [i \in 1..Len(b.stack) |-> ValOut(b.stack[i])],
   frames |-> [i \in 1..Len(b.frames) |-> << b.frames[i].ret, b.frames[i].na, b.frames[i].nr, b.frames[i].name >>],
   trace |-> b.trace]

Slots(f) == SetToSortSeq(DOMAIN f, <)
TrigSeq(t) == SetToSeq(t)

MachineOut(id, kk, mm, what) ==
  [id |-> id, k |-> kk, what |-> what,
   br |-> [i \in 1..Len(mm.br) |-> BranchOut(mm.br[i])],
   cur |-> mm.sel, err |-> mm.err, trig |-> TrigSeq(mm.trig), bps |-> mm.bps,
   scratch |-> LET q == Slots(mm.scratch) IN [i \in 1..Len(q) |-> << q[i], ValOut(mm.scratch[q[i]]) >>]]

Say(kk, mm, what) == PrintT("@@" \o ToJson(MachineOut(Recs[r].id, kk, mm, what)))

Init == /\ r \in 1..Len(Recs) /\ pc = "load" /\ p = NoProg /\ m = NoVm /\ k = 0 /\ n = 0

Load == /\ pc = "load"
        /\ p' = ProgramOf(Analyse(Recs[r].src, SetOf(Recs[r].addrs)))
        /\ m' = VmInitWith(p', Recs[r].budget)
        /\ pc' = "cmd" /\ Say(0, m', "ok")
        /\ UNCHANGED << r, k, n >>

Cmd == Recs[r].cmds[k + 1]
More == k < Len(Recs[r].cmds)

End(mm) == IF mm.undef THEN "undef" ELSE IF Len(mm.br) > Recs[r].cap THEN "cap" ELSE "ok"
Answer(mm) == Say(k + 1, mm, End(mm)) /\ pc' = (IF End(mm) = "ok" THEN "cmd" ELSE "stop") /\ k' = k + 1

DoStep == /\ pc = "cmd" /\ More /\ Cmd.c = "step"
          /\ m' = VmStep(p, m) /\ Answer(m') /\ UNCHANGED << r, p, n >>

DoSwitch == /\ pc = "cmd" /\ More /\ Cmd.c = "switch"
            /\ m' = VmSwitch(m, Cmd.n) /\ Answer(m') /\ UNCHANGED << r, p, n >>

DoBreak == /\ pc = "cmd" /\ More /\ Cmd.c = "bp"
           /\ m' = VmSetBreakpoints(p, m, Cmd.ls) /\ Answer(m') /\ UNCHANGED << r, p, n >>

\* a run is refused while the last step's error has not been cleared
DoRun == /\ pc = "cmd" /\ More /\ Cmd.c = "run"
         /\ IF VmRunning(m) THEN pc' = "run" /\ n' = 0 /\ UNCHANGED << r, p, m, k >>
            ELSE m' = m /\ Answer(m') /\ UNCHANGED << r, p, n >>

RunStep == /\ pc = "run"
           /\ m' = VmStep(p, m)
           /\ IF Len(m'.br) > Recs[r].cap \/ n > MaxRun
              THEN pc' = "stop" /\ Say(k + 1, m', "cap") /\ UNCHANGED << r, p, k, n >>
              ELSE IF VmStops(m') THEN Answer(m') /\ UNCHANGED << r, p, n >>
              ELSE pc' = "run" /\ n' = n + 1 /\ UNCHANGED << r, p, k >>

Next == Load \/ DoStep \/ DoSwitch \/ DoBreak \/ DoRun \/ RunStep
Spec == Init /\ [][Next]_vars

InvVm == pc \in {"cmd", "run"} => VmInvariant(p, m, Recs[r].budget)
\* branches are independent
FrameStep == (pc \in {"cmd", "run"} /\ pc' \in {"cmd", "run"} /\ (pc = "run" \/ (More /\ Cmd.c = "step"))) => StepFrame(p, m, m') /\ StopOk(m')
PropFrame == [][FrameStep]_vars
\* every step that executes something uses up budget
BudgetStep == (pc = "run" /\ Len(m'.br) = Len(m.br) /\ ~ m'.err /\ ~ m'.undef /\ m'.sel # -1) =>
                 \/ \E i \in 1..Len(m.br) : m'.br[i].budget < m.br[i].budget
                 \/ \E i \in 1..Len(m.br) : m'.br[i].line = -1 /\ m.br[i].line # -1
PropBudget == [][BudgetStep]_vars
=============================================================================
