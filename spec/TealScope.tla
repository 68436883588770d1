----------------------------- MODULE TealScope -----------------------------
(***************************************************************************)
(* Which listings can be written down: a field has a name only in versions *)
(* and instructions that know it.                                          *)
(***************************************************************************)
EXTENDS TealLint

\* version in force after every line of a listing
VersionAt(l) ==
  FoldLeft(LAMBDA a, e : Append(a, IF e.op = "#pragma" THEN e.a[1].s
                                   ELSE IF a = << >> THEN "1" ELSE a[Len(a)]), << >>, l)

FieldOk(kind, num, ver) ==
  LET K == IF kind \in {"txn", "txna", "itxn"} THEN "txn" ELSE kind
      n == ParseDecStr(num)
      f == FieldsOf[K][n + 1]
      v == IF SmallNumeral(ver) THEN [v |-> ver, n |-> ParseDecStr(ver)] ELSE [v |-> ver, n |-> -1]
  IN /\ n < Len(FieldsOf[K])
     /\ VerGe(v, IF kind = "itxn" THEN f.itx ELSE f.ver)
     /\ kind = "txna" => f.arr
     /\ kind = "itxn" => f.itx > 0

EntryOk(e, ver) ==
  e.op \in OpNames =>
    \A i \in 1..Len(e.a) :
      LET imm == OpOf[e.op].imm
          k == IF i > Len(imm) THEN imm[Len(imm)].k ELSE imm[i].k
      IN k \in {"const", "u64", "u8", "i8", "label", "sig", "addr", "bytes"} \/ FieldOk(k, e.a[i].s, ver)

EntriesOk(list) == LET v == VersionAt(list) IN \A i \in 1..Len(list) : EntryOk(list[i], v[i])
=============================================================================
