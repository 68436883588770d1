------------------------------- MODULE TealVm -------------------------------
(***************************************************************************)
(* The symbolic machine of the debugger.  It executes a listing on a stack *)
(* of typed values; a conditional or multi-way branch starts a further     *)
(* branch of execution for every target while the current one falls        *)
(* through.                                                                *)
(*                                                                         *)
(* A program P is [list, at, ver]: the listing, the line of every label    *)
(* (the last definition counts) and the version.                           *)
(* A value is [t, k, s, b, len]: type "uint64", "bytes", "any" or "none",  *)
(* k "int", "bytes" or "sig" for a known constant (s its numeral or text,  *)
(* b its bytes), "" otherwise; len the length if known, -1 otherwise.      *)
(* A branch is [id, line, stack, frames, budget, name, trace, dirty].      *)
(* line is -1 when the branch has ended, trace the lines executed, dirty   *)
(* says that it stopped with an error inside an instruction, which leaves  *)
(* its inside unspecified.                                                 *)
(* The machine is [br, cur, sel, scratch, bps, trig, err, undef]: cur the  *)
(* index (from 0) scheduling continues from, sel the selected branch's     *)
(* index or -1, scratch a function of the used slots, bps the breakpoint   *)
(* lines, trig the pairs <<branch, line>> that stopped the last step,      *)
(* undef that a step was asked of a dirty branch.                          *)
(***************************************************************************)
EXTENDS TealLint

ProgramOf(c) ==
  [list |-> c.list, ver |-> c.ver,
   at |-> FoldLeft(LAMBDA f, l : IF IsLabelE(c.list[l]) THEN (LabelName(c.list[l]) :> (l - 1)) @@ f ELSE f,
                   << >>, [i \in 1..Len(c.list) |-> i])]

LineOf(P, name) == IF name \in DOMAIN P.at THEN P.at[name] ELSE -1
OpAt(P, l) == P.list[l + 1]
Size(P) == Len(P.list)

Val(t) == [t |-> t, k |-> "", s |-> "", b |-> << >>, len |-> -1]
IntVal(s) == [t |-> "uint64", k |-> "int", s |-> s, b |-> << >>, len |-> 0]
BytesVal(bs) == [t |-> "bytes", k |-> "bytes", s |-> "", b |-> bs, len |-> Len(bs)]
SigVal(s) == [t |-> "bytes", k |-> "sig", s |-> s, b |-> << >>, len |-> 4]
\* a loaded value is of either type; a constant that was stored keeps its value
LoadedVal(v) == [v EXCEPT !.t = "any", !.k = CASE v.k = "int" -> "oint" [] v.k = "bytes" -> "obytes" [] v.k = "sig" -> "osig" [] OTHER -> v.k]

MaxBudget == 700

Branch0 == [id |-> 0, line |-> 0, stack |-> << >>, frames |-> << >>, budget |-> MaxBudget,
            name |-> "(main)", trace |-> << >>, dirty |-> FALSE]

Ended(b) == [b EXCEPT !.line = -1, !.name = "(exited)"]

-----------------------------------------------------------------------------
(* lines without effect *)

\* the branch moved past labels, pragmas and empty lines; every label passed
\* gives its name.  A branch past the last line has nothing to execute.
RECURSIVE SkipNops(_, _)
SkipNops(P, b) ==
  IF b.line = -1 \/ b.line >= Size(P) THEN b
  ELSE LET e == OpAt(P, b.line)
           n == IF IsLabelE(e) THEN LabelName(e) ELSE b.name
       IN IF IsNopE(e) THEN SkipNops(P, [b EXCEPT !.line = @ + 1, !.name = n])
          ELSE [b EXCEPT !.name = n]

AtOp(P, b) == b.line # -1 /\ b.line < Size(P)

\* where execution goes on from: the first branch from cur on that has
\* something to execute, the others met on the way have ended
RECURSIVE ScheduleFrom(_, _, _, _)
ScheduleFrom(P, m, begin, moved) ==
  LET i == m.cur
      b == m.br[i + 1]
  IN IF b.line = -1 THEN
       LET j == IF i + 1 = Len(m.br) THEN 0 ELSE i + 1 IN
       IF j = begin THEN [m EXCEPT !.cur = j, !.sel = -1]
       ELSE ScheduleFrom(P, [m EXCEPT !.cur = j], begin, TRUE)
     ELSE LET b2 == SkipNops(P, b) IN
          IF AtOp(P, b2) THEN [m EXCEPT !.br[i + 1] = b2, !.sel = i]
          ELSE ScheduleFrom(P, [m EXCEPT !.br[i + 1] = Ended(b2)], begin, moved)
Schedule(P, m) == ScheduleFrom(P, m, m.cur, FALSE)

VmInitWith(P, budget) ==
  Schedule(P, [br |-> << [Branch0 EXCEPT !.budget = budget] >>, cur |-> 0, sel |-> -1, scratch |-> << >>, bps |-> << >>,
               trig |-> {}, err |-> FALSE, undef |-> FALSE])
VmInit(P) == VmInitWith(P, MaxBudget)

-----------------------------------------------------------------------------
(* the stack.  Failing readers give FALSE in ok. *)

Fits(want, v) == want = "any" \/ v.t = "any" \/ v.t = want
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
Top(s, n) == s[Len(s) - n]         \* n from 0

PopOk(s, types) ==   \* types, deepest first
  /\ Len(s) >= Len(types)
  /\ \A i \in 1..Len(types) : Fits(types[i], s[Len(s) - Len(types) + i])

-----------------------------------------------------------------------------
(* costs: -1 when the cost cannot be determined because the instruction is  *)
(* in error                                                                 *)

Cost(P, b) ==
  LET e == OpAt(P, b.line)
      c == OpOf[e.op].cost
  IN CASE c.k = "const" -> c.n
       [] c.k = "ver" -> IF P.ver.n = 1 THEN c.one ELSE c.more
       [] c.k = "field" ->
            (LET n == ParseDecStr(e.a[1].s) IN IF n >= Len(c.tab) THEN -1 ELSE c.tab[n + 1])
       [] c.k = "len" ->
            (IF Len(b.stack) <= c.at THEN -1
             ELSE LET l == Top(b.stack, c.at).len IN
                  IF l = -1 THEN 1
                  ELSE c.base + c.unit * ((l \div c.per) + (IF l % c.per > 0 THEN 1 ELSE 0)))

-----------------------------------------------------------------------------
(* effects: [ok, b, forks, st]: the branch afterwards, the labels further   *)
(* branches start at, the access to scratch space                           *)

NoScratch == [k |-> "none", slot |-> 0, v |-> Val("any")]
Reads(slot) == [NoScratch EXCEPT !.k = "load", !.slot = slot]
Writes(slot, v) == [k |-> "store", slot |-> slot, v |-> v]
Fx(b) == [ok |-> TRUE, b |-> b, forks |-> << >>, st |-> NoScratch]
FxErr(b) == [Fx(b) EXCEPT !.ok = FALSE]
NextLine(b) == [b EXCEPT !.line = @ + 1]
Go(b, stack) == Fx([NextLine(b) EXCEPT !.stack = stack])

IntArg(e, i) == ParseDecStr(e.a[i].s)

FieldKindOf(o) == LET k == o.imm[o.fld].k IN IF k \in {"txn", "txna", "itxn"} THEN "txn" ELSE k

PushType(o, e, i) ==
  IF o.push[i] # "field" THEN o.push[i]
  ELSE LET n == IntArg(e, o.fld)
           F == FieldsOf[FieldKindOf(o)]
       IN IF n >= Len(F) THEN "unknown" ELSE F[n + 1].type

StdEffect(b, e, o) ==
  LET ts == [i \in 1..Len(o.push) |-> PushType(o, e, i)] IN
  IF ~ PopOk(b.stack, o.pops) \/ \E i \in 1..Len(ts) : ts[i] = "unknown" THEN FxErr(b)
  ELSE Go(b, Drop(b.stack, Len(o.pops)) \o [i \in 1..Len(ts) |-> Val(ts[i])])

Targets(e) == [i \in 1..Len(e.a) |-> e.a[i].s]

Effect(P, b) ==
  LET e == OpAt(P, b.line)
      o == OpOf[e.op]
      s == b.stack
      n == Len(s)
      pop(ts) == PopOk(s, ts)
      f == b.frames[Len(b.frames)]
  IN
  CASE o.eff = "std" -> StdEffect(b, e, o)
    [] o.eff \in {"intcblock", "bytecblock"} -> Fx(NextLine(b))
    [] o.eff \in {"int", "pushint"} -> Go(b, Append(s, IntVal(e.a[1].s)))
    [] o.eff \in {"byte", "pushbytes"} -> Go(b, Append(s, BytesVal(e.a[1].b)))
    [] o.eff = "pushints" -> Go(b, s \o [i \in 1..Len(e.a) |-> IntVal(e.a[i].s)])
    [] o.eff = "pushbytess" -> Go(b, s \o [i \in 1..Len(e.a) |-> BytesVal(e.a[i].b)])
    [] o.eff = "method" -> Go(b, Append(s, SigVal(e.a[1].s)))
    [] o.eff = "addr" -> Go(b, Append(s, Val("bytes")))
    [] o.eff = "err" -> Fx(Ended(b))
    [] o.eff = "return" -> IF pop(<<"uint64">>) THEN Fx(Ended([b EXCEPT !.stack = Drop(s, 1)])) ELSE FxErr(b)
    [] o.eff = "b" -> Fx([b EXCEPT !.line = LineOf(P, e.a[1].s)])
    [] o.eff \in {"bz", "bnz", "switch"} ->
         IF pop(<<"uint64">>) THEN [Go(b, Drop(s, 1)) EXCEPT !.forks = Targets(e)] ELSE FxErr(b)
    [] o.eff = "match" ->
         IF n > Len(e.a) THEN [Go(b, Drop(s, Len(e.a) + 1)) EXCEPT !.forks = Targets(e)] ELSE FxErr(b)
    [] o.eff = "callsub" ->
         Fx([b EXCEPT !.line = LineOf(P, e.a[1].s),
                      !.frames = Append(@, [ret |-> b.line, na |-> 0, nr |-> 0, p |-> n, clear |-> FALSE, name |-> b.name])])
    [] o.eff = "proto" ->
         IF b.frames = << >> THEN FxErr(b)
         ELSE Fx([NextLine(b) EXCEPT !.frames[Len(b.frames)] =
                    [@ EXCEPT !.na = IntArg(e, 1), !.nr = IntArg(e, 2), !.clear = TRUE]])
    [] o.eff = "retsub" ->
         IF b.frames = << >> THEN Fx(NextLine(b))
         ELSE IF n < f.nr THEN FxErr(b)
         ELSE LET rs == SubSeq(s, n - f.nr + 1, n)
                  rest == Drop(s, f.nr)
              IN IF f.clear /\ (Len(rest) < f.p \/ f.p < f.na) THEN FxErr(b)
                 ELSE Fx([b EXCEPT !.stack = (IF f.clear THEN SubSeq(rest, 1, f.p - f.na) ELSE rest) \o rs,
                                   !.line = f.ret + 1, !.name = f.name, !.frames = Drop(@, 1)])
    [] o.eff = "frame_dig" ->
         IF b.frames = << >> THEN FxErr(b)
         ELSE LET i == f.p + IntArg(e, 1) IN
              IF i < 0 \/ i >= n THEN FxErr(b) ELSE Go(b, Append(s, s[i + 1]))
    [] o.eff = "frame_bury" ->
         IF b.frames = << >> \/ n = 0 THEN FxErr(b)
         ELSE LET i == f.p + IntArg(e, 1) IN
              IF i < 0 \/ i >= n - 1 THEN FxErr(b)
              ELSE Go(b, [Drop(s, 1) EXCEPT ![i + 1] = s[n]])
    [] o.eff = "bury" ->
         LET d == IntArg(e, 1) IN
         IF n = 0 \/ d = 0 \/ d > n - 1 THEN FxErr(b)
         ELSE Go(b, [Drop(s, 1) EXCEPT ![n - d] = s[n]])
    [] o.eff = "popn" -> IF n >= IntArg(e, 1) THEN Go(b, Drop(s, IntArg(e, 1))) ELSE FxErr(b)
    [] o.eff = "dupn" -> IF n >= 1 THEN Go(b, s \o [i \in 1..IntArg(e, 1) |-> s[n]]) ELSE FxErr(b)
    [] o.eff = "dup" -> IF n >= 1 THEN Go(b, Append(s, s[n])) ELSE FxErr(b)
    [] o.eff = "dup2" -> IF n >= 2 THEN Go(b, s \o << s[n-1], s[n] >>) ELSE FxErr(b)
    [] o.eff = "dig" -> IF n > IntArg(e, 1) THEN Go(b, Append(s, Top(s, IntArg(e, 1)))) ELSE FxErr(b)
    [] o.eff = "swap" -> IF n >= 2 THEN Go(b, Drop(s, 2) \o << s[n], s[n-1] >>) ELSE FxErr(b)
    [] o.eff = "cover" ->      \* the top goes below the d values under it
         LET d == IntArg(e, 1) IN
         IF n <= d THEN FxErr(b)
         ELSE Go(b, SubSeq(s, 1, n - d - 1) \o << s[n] >> \o SubSeq(s, n - d, n - 1))
    [] o.eff = "uncover" ->    \* the value below d others comes to the top
         LET d == IntArg(e, 1) IN
         IF n <= d THEN FxErr(b)
         ELSE Go(b, SubSeq(s, 1, n - d - 1) \o SubSeq(s, n - d + 1, n) \o << s[n - d] >>)
    [] o.eff = "load" -> [Go(b, s) EXCEPT !.st = Reads(IntArg(e, 1))]
    [] o.eff = "store" ->
         IF n = 0 THEN FxErr(b)
         ELSE [Go(b, Drop(s, 1)) EXCEPT !.st = Writes(IntArg(e, 1), s[n])]
    [] o.eff = "stores" ->
         IF ~ pop(<<"uint64", "any">>) THEN FxErr(b)
         ELSE LET i == s[n - 1]
                  g == Go(b, Drop(s, 2))
              IN IF i.k # "int" THEN g
                 ELSE IF SmallNumeral(i.s) THEN [g EXCEPT !.st = Writes(ParseDecStr(i.s), s[n])]
                 ELSE FxErr(b)

-----------------------------------------------------------------------------
(* one step *)

HitLines(m, b) == IF b.line \in {m.bps[i] : i \in 1..Len(m.bps)} THEN {<< b.id, b.line >>} ELSE {}

Forked(P, b, id, target) ==
  SkipNops(P, [b EXCEPT !.id = id, !.line = LineOf(P, target), !.name = target])

VmStep(P, m0) ==
  LET m == Schedule(P, [m0 EXCEPT !.err = FALSE, !.trig = {}]) IN
  IF m.sel = -1 THEN m
  ELSE
    LET i == m.sel + 1
        b == m.br[i]
        c == Cost(P, b)
        fail == [m EXCEPT !.err = TRUE, !.br[i].dirty = TRUE]
    IN IF b.dirty THEN [m EXCEPT !.undef = TRUE]
       ELSE IF c = -1 THEN fail
       ELSE IF b.budget < c THEN [m EXCEPT !.br[i] = Ended(b)]
       ELSE
         LET paid == [b EXCEPT !.budget = @ - c, !.trace = Append(@, b.line)]
             fx == Effect(P, paid)
         IN IF ~ fx.ok \/ fx.st.slot > 255 THEN fail
            ELSE
              LET slot == fx.st.slot
                  isload == fx.st.k = "load"
                  loaded == IF slot \in DOMAIN m.scratch THEN LoadedVal(m.scratch[slot]) ELSE Val("any")
                  after == IF isload THEN [fx.b EXCEPT !.stack = Append(@, loaded)] ELSE fx.b
                  \* the value a further branch starts from: all but position and name
                  new == [j \in 1..Len(fx.forks) |->
                            Forked(P, [after EXCEPT !.line = b.line], Len(m.br) + j - 1, fx.forks[j])]
                  here == SkipNops(P, after)
                  m2 == [m EXCEPT !.br = [@ EXCEPT ![i] = here] \o new,
                                  !.scratch = IF fx.st.k = "store" THEN (slot :> fx.st.v) @@ @ ELSE @]
                  hits == UNION ({HitLines(m, here)} \union {HitLines(m, new[j]) : j \in 1..Len(new)})
              IN [Schedule(P, m2) EXCEPT !.trig = hits]

VmSwitch(m, id) == IF id >= 0 /\ id < Len(m.br) THEN [m EXCEPT !.cur = id, !.sel = id] ELSE m

Accepts(P, l) == l >= 0 /\ l < Size(P) /\ ~ IsNopE(OpAt(P, l))
VmSetBreakpoints(P, m, ls) == [m EXCEPT !.bps = SelectSeq(ls, LAMBDA l : Accepts(P, l))]

\* running goes on
VmRunning(m) == m.sel # -1 /\ ~ m.err /\ ~ m.undef
\* a run stops after this step
VmStops(m) == m.trig # {} \/ ~ VmRunning(m)

-----------------------------------------------------------------------------
(* what must be true of every machine *)

\* the lines control can be at after line l, given the frames
NopsAfter(P, l) == SkipNops(P, [Branch0 EXCEPT !.line = l]).line
Successors(P, l) ==
  LET e == OpAt(P, l)
      to(names) == {NopsAfter(P, LineOf(P, names[i])) : i \in 1..Len(names)}
      fall == {NopsAfter(P, l + 1)}
  IN CASE e.op \in {"err", "return"} -> {-1}
       [] e.op \in {"b", "callsub"} -> to(Targets(e))
       [] e.op \in {"bz", "bnz", "switch", "match"} -> to(Targets(e)) \union fall
       [] e.op = "retsub" -> fall \union {NopsAfter(P, k + 1) : k \in {x \in 0..(Size(P) - 1) : OpAt(P, x).op = "callsub"}}
       [] OTHER -> fall

BranchOk(P, b, budget) ==
  /\ b.budget >= 0 /\ b.budget + Len(b.trace) <= budget
  /\ b.line >= -1 /\ b.line <= Size(P)
  /\ AtOp(P, b) => ~ IsNopE(OpAt(P, b.line))
  \* executed lines follow the control flow, and so does the position
  /\ LET n == Len(b.trace) IN
     /\ n >= 1 => b.trace[n] < Size(P) /\ ~ IsNopE(OpAt(P, b.trace[n]))
     /\ n >= 2 => b.trace[n] \in Successors(P, b.trace[n - 1])
     /\ n >= 1 /\ AtOp(P, b) /\ ~ b.dirty => b.line \in Successors(P, b.trace[n])
     /\ n = 0 => b.line \in {-1, NopsAfter(P, 0)}
  \* frames come from calls; their base lies within what the callee may use
  /\ \A i \in 1..Len(b.frames) : OpAt(P, b.frames[i].ret).op = "callsub"
  /\ \A i \in 1..Len(b.stack) : b.stack[i].t \in {"uint64", "bytes", "any"}

VmInvariant(P, m, budget) ==
  /\ m.cur >= 0 /\ m.cur < Len(m.br)
  /\ \A i \in 1..Len(m.br) : m.br[i].id = i - 1 /\ BranchOk(P, m.br[i], budget)
  /\ \A i \in 1..Len(m.bps) : Accepts(P, m.bps[i])
  /\ DOMAIN m.scratch \subseteq 0..255

\* a stop is at a breakpoint, and the branch is there
StopOk(m) == \A t \in m.trig : /\ \E i \in 1..Len(m.bps) : m.bps[i] = t[2]
                               /\ m.br[t[1] + 1].line = t[2]

\* a step touches only the selected branch (and adds new ones)
StepFrame(P, m, m2) ==
  LET s == Schedule(P, [m EXCEPT !.err = FALSE, !.trig = {}]).sel IN
  \A i \in 1..Len(m.br) :
    i - 1 # s => LET a == m.br[i] b == m2.br[i] IN
      /\ a.stack = b.stack /\ a.frames = b.frames /\ a.budget = b.budget /\ a.trace = b.trace
      /\ (a.line = b.line \/ (b.line = -1 /\ ~ AtOp(P, SkipNops(P, a))))
=============================================================================
