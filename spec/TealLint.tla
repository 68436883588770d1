------------------------------ MODULE TealLint ------------------------------
(***************************************************************************)
(* The lint rules, declaratively, on a listing.  Line numbers are from 0;  *)
(* entry l of the listing is list[l + 1].                                  *)
(***************************************************************************)
EXTENDS TealAnalysis

Dom(list) == 0..(Len(list) - 1)
At(list, l) == list[l + 1]

IsNopE(en)   == en.op \in {"", ":", "#pragma"}
IsLabelE(en) == en.op = ":"
LabelName(en) == en.a[1].s
IsTermE(en)  == en.op \in {"err", "return", "retsub"}
EndsBlockE(en) == en.op \in {"b", "return", "err"}

Uses(list, l) == LET t == TargetsOf(At(list, l)) IN {t[i] : i \in 1..Len(t)}
UsedNames(list) == UNION {Uses(list, l) : l \in Dom(list)}
LabelLines(list, name) == {l \in Dom(list) : IsLabelE(At(list, l)) /\ LabelName(At(list, l)) = name}
DefinedNames(list) == {LabelName(At(list, l)) : l \in {k \in Dom(list) : IsLabelE(At(list, k))}}

DuplicateLabels(list) ==
  {l \in Dom(list) : IsLabelE(At(list, l)) /\ Cardinality(LabelLines(list, LabelName(At(list, l)))) > 1}

UnusedLabels(list) ==
  LET used == UsedNames(list) IN
  {l \in Dom(list) : IsLabelE(At(list, l)) /\ LabelName(At(list, l)) \notin used}

\* after an instruction that never continues with the next line, and with no
\* referenced label in between
Unreachable(list) ==
  LET used == UsedNames(list) IN
  {l \in Dom(list) :
     /\ ~ IsNopE(At(list, l))
     /\ \E k \in 0..(l - 1) :
          /\ EndsBlockE(At(list, k))
          /\ \A m \in (k + 1)..(l - 1) :
               ~ (IsLabelE(At(list, m)) /\ LabelName(At(list, m)) \in used)}

\* only empty lines and pragmas lie between the branch and its label
RedundantBranches(list) ==
  {l \in Dom(list) :
     /\ At(list, l).op = "b"
     /\ \E k \in (l + 1)..(Len(list) - 1) :
          /\ IsLabelE(At(list, k)) /\ LabelName(At(list, k)) = At(list, l).a[1].s
          /\ \A m \in (l + 1)..(k - 1) : IsNopE(At(list, m)) /\ ~ IsLabelE(At(list, m))}

\* the missing operands of line l, one finding each
MissingOn(list, l, defined) == SelectSeq(TargetsOf(At(list, l)), LAMBDA n : n \notin defined)

\* something between from and to leaves the range or terminates; lines gives
\* the lines where a name is defined
CanEscape(list, lines, from, to) ==
  \E l \in from..to :
    \/ IsTermE(At(list, l))
    \/ \E n \in Uses(list, l) \cap DOMAIN lines : \E k \in lines[n] : k < from \/ k > to

InfiniteLoops(list) ==
  LET defined == DefinedNames(list)
      lines == [n \in defined |-> LabelLines(list, n)]
  IN {l \in Dom(list) :
     /\ At(list, l).op = "b" /\ At(list, l).a[1].s \in defined
     /\ LET L == {k \in lines[At(list, l).a[1].s] : k < l}
        IN L # {} /\ LET k == CHOOSE x \in L : \A y \in L : y <= x IN ~ CanEscape(list, lines, k, l)}

LatePragmas(list) ==
  {l \in Dom(list) : /\ At(list, l).op = "#pragma"
                     /\ \E k \in 0..(l - 1) : At(list, k).op = "#pragma" \/ ~ IsNopE(At(list, k))}

SetToSortedSeq(S) == SetToSortSeq(S, <)

LintFindings(c) ==
  LET D(rule, sev, l) == Diag(rule, l, LineBegin(c.lines[l + 1]), LineEnd(c.lines[l + 1]), sev)
      seqOf(rule, sev, S) == LET q == SetToSortedSeq(S) IN [i \in 1..Len(q) |-> D(rule, sev, q[i])]
      defined == DefinedNames(c.list)
      miss == FoldLeft(LAMBDA a, l : a \o [i \in 1..Len(MissingOn(c.list, l, defined)) |-> D("LINT0005", 1, l)],
                       << >>, [i \in 1..Len(c.list) |-> i - 1])
  IN seqOf("LINT0001", 1, DuplicateLabels(c.list))
     \o seqOf("LINT0002", 2, UnusedLabels(c.list))
     \o seqOf("LINT0003", 2, Unreachable(c.list))
     \o seqOf("LINT0004", 2, RedundantBranches(c.list))
     \o miss
     \o seqOf("LINT0005", 1, InfiniteLoops(c.list))
     \o seqOf("LINT0006", 1, LatePragmas(c.list))

\* lines offered for removal: [l, name], name << >> for a branch
Redundants(c) ==
  LET u == SetToSortedSeq(UnusedLabels(c.list))
      r == SetToSortedSeq(RedundantBranches(c.list))
  IN [i \in 1..Len(u) |-> [l |-> u[i], name |-> << LabelName(At(c.list, u[i])) >>]]
     \o [i \in 1..Len(r) |-> [l |-> r[i], name |-> << >>]]

\* the complete analysis of a text
Analyse(src, addrs) ==
  LET z == Lex(src)
      c == AnalyseLines(LinesOf(z.toks), addrs)
      syn == [i \in 1..Len(z.errs) |-> Diag("SYNTAX", z.errs[i].l, z.errs[i].b, z.errs[i].b, 1)]
  IN [c EXCEPT !.diags = syn \o @ \o LintFindings(c)] @@ [toks |-> z.toks, errs |-> z.errs]
=============================================================================
