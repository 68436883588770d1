------------------------------ MODULE TealSarif ------------------------------
(***************************************************************************)
(* The scanner.  A tree is a sequence of entries [path, name, kind, src]:  *)
(* path the number of the entry's location, name its last component (a     *)
(* sequence of characters), kind "dir" or "file", src the text of a file.  *)
(* single says that the one entry was named itself.  The scanner visits    *)
(* the entries one by one (in any order) and appends an artifact for every *)
(* TEAL file and a result for every finding of its analysis.               *)
(***************************************************************************)
EXTENDS TealLint

DotTeal == << ".", "t", "e", "a", "l" >>
IsTealName(n) == Len(n) >= 5 /\ SubSeq(n, Len(n) - 4, Len(n)) = DotTeal
Scanned(e, single) == e.kind = "file" /\ (single \/ IsTealName(e.name))

Rules == << "SYNTAX", "PARSE", "LINT0001", "LINT0002", "LINT0003", "LINT0004", "LINT0005", "LINT0006", "LINT0007", "LINT0008" >>
\* severities of the analysis: 1 error, 2 warning, 3 information, 4 hint
Level(sev) == CASE sev = 1 -> "error" [] sev = 2 -> "warning" [] OTHER -> "note"

ResultOf(d, idx) == [rule |-> d.rule, level |-> Level(d.sev), line |-> d.l + 1, col |-> d.b + 1, art |-> idx]

ReportInit == [arts |-> << >>, res |-> << >>]
\* the report after an entry was visited
ScanEntry(rep, e, single, addrs) ==
  IF ~ Scanned(e, single) THEN rep
  ELSE LET idx == Len(rep.arts)      \* counted from 0
           ds == Analyse(e.src, addrs).diags
       IN [arts |-> Append(rep.arts, e.path),
           res |-> rep.res \o [i \in 1..Len(ds) |-> ResultOf(ds[i], idx)]]
=============================================================================
