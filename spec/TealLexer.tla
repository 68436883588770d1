------------------------------ MODULE TealLexer ------------------------------
(***************************************************************************)
(* The tokeniser.  Its state z is                                          *)
(*   i     number of bytes consumed                                        *)
(*   l, lb current line (from 0) and the number of bytes before it         *)
(*   toks  tokens so far: [t, l, b, e, v], t \in {"V","C","E"} (word,      *)
(*         comment, line end), b and e byte columns, v the token's text    *)
(*   errs  unclosed literals: [l, b]                                       *)
(* One step consumes blanks and one token.                                 *)
(***************************************************************************)
EXTENDS TealText

LexInit == [i |-> 0, l |-> 0, lb |-> 0, toks |-> << >>, errs |-> << >>]

LexDone(src, z) == z.i = Len(src)

\* the number of bytes from position k (1-based) on that are blanks; that are
\* not line ends; that are neither
RECURSIVE BlankRun(_, _)
BlankRun(src, k) == IF k <= Len(src) /\ IsBlank(src[k]) THEN 1 + BlankRun(src, k + 1) ELSE 0
RECURSIVE LineRun(_, _)
LineRun(src, k) == IF k <= Len(src) /\ ~ IsEolChar(src[k]) THEN 1 + LineRun(src, k + 1) ELSE 0
RECURSIVE WordRun(_, _)
WordRun(src, k) == IF k <= Len(src) /\ ~ IsEolChar(src[k]) /\ ~ IsBlank(src[k])
                   THEN 1 + WordRun(src, k + 1) ELSE 0

\* the literal that starts with the quote at position k: where its closing
\* quote is (0 if it is not closed on its line) or where the line ends
RECURSIVE ScanQuoted(_, _, _)
ScanQuoted(src, k, esc) ==
  IF k > Len(src) \/ IsEolChar(src[k]) THEN [closed |-> FALSE, k |-> k]
  ELSE IF esc THEN ScanQuoted(src, k + 1, FALSE)
  ELSE IF src[k] = "\"" THEN [closed |-> TRUE, k |-> k]
  ELSE ScanQuoted(src, k + 1, src[k] = "\\")

\* \" inside a literal stands for the quote
RECURSIVE UnescapeQuotes(_)
UnescapeQuotes(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF s[1] = "\\" /\ s[2] = "\"" THEN << "\"" >> \o UnescapeQuotes(SubSeq(s, 3, Len(s)))
  ELSE << s[1] >> \o UnescapeQuotes(Tail(s))

Tok(t, z, from, to, v) == [t |-> t, l |-> z.l, b |-> from - 1 - z.lb, e |-> to - z.lb, v |-> v]

LexStep(src, z) ==
  LET n  == BlankRun(src, z.i + 1)
      k  == z.i + n + 1                       \* first byte of the token
  IN
  IF k > Len(src) THEN [z EXCEPT !.i = Len(src)]
  ELSE IF IsEolChar(src[k]) THEN
    LET w == IF src[k] = "\r" /\ k < Len(src) /\ src[k + 1] = "\n" THEN 2 ELSE 1
        to == k + w - 1
    IN [z EXCEPT !.i = to, !.l = @ + 1, !.lb = to,
                 !.toks = Append(@, Tok("E", z, k, to, SubSeq(src, k, to)))]
  ELSE IF src[k] = "/" /\ k < Len(src) /\ src[k + 1] = "/" THEN
    LET m == LineRun(src, k)
        to == k + m - 1
    IN [z EXCEPT !.i = to, !.toks = Append(@, Tok("C", z, k, to, SubSeq(src, k + 2, to)))]
  ELSE IF src[k] = "\"" THEN
    LET q == ScanQuoted(src, k + 1, FALSE) IN
    IF q.closed THEN
      [z EXCEPT !.i = q.k,
                !.toks = Append(@, Tok("V", z, k, q.k,
                   << "\"" >> \o UnescapeQuotes(SubSeq(src, k + 1, q.k - 1)) \o << "\"" >>))]
    ELSE
      LET to == q.k - 1
          err == [l |-> z.l, b |-> to - z.lb]
      IN IF q.k > Len(src)
         THEN [z EXCEPT !.i = Len(src), !.errs = Append(@, err)]
         ELSE [z EXCEPT !.i = to, !.errs = Append(@, err),
                        !.toks = Append(@, Tok("V", z, k, to, SubSeq(src, k, to)))]
  ELSE
    LET m == WordRun(src, k)
        to == k + m - 1
    IN [z EXCEPT !.i = to, !.toks = Append(@, Tok("V", z, k, to, SubSeq(src, k, to)))]

RECURSIVE LexFrom(_, _)
LexFrom(src, z) == IF LexDone(src, z) THEN z ELSE LexFrom(src, LexStep(src, z))
Lex(src) == LexFrom(src, LexInit)

-----------------------------------------------------------------------------
(* what makes a tokenisation right, stated on the state *)

LineStarts(src, z) == \* byte offset of every line begun so far
  LET E == SelectSeq(z.toks, LAMBDA t : t.t = "E") IN
  FoldLeft(LAMBDA a, t : Append(a, a[Len(a)] + t.e), << 0 >>, E)

LexInvariant(src, z) ==
  LET S == LineStarts(src, z)
      from(t) == S[t.l + 1] + t.b
      to(t)   == S[t.l + 1] + t.e
      n == Len(z.toks)
  IN /\ z.i <= Len(src) /\ z.l + 1 = Len(S) /\ z.lb = S[Len(S)]
     \* tokens are non-empty, in source order and disjoint
     /\ \A k \in 1..n : from(z.toks[k]) < to(z.toks[k]) /\ to(z.toks[k]) <= z.i
     /\ \A k \in 1..(n-1) : to(z.toks[k]) <= from(z.toks[k+1])
     \* outside tokens there are only blanks, or the tail of an unclosed literal
     /\ z.errs = << >> =>
          \A p \in 1..z.i : (\A k \in 1..n : ~ (from(z.toks[k]) < p /\ p <= to(z.toks[k])))
                            => IsBlank(src[p])
     \* line ends occur exactly as line-end tokens
     /\ \A k \in 1..n : \A p \in (from(z.toks[k]) + 1)..to(z.toks[k]) :
          IsEolChar(src[p]) <=> z.toks[k].t = "E"
     /\ \A k \in 1..Len(z.errs) : z.errs[k].l <= z.l

\* the same for the last token alone
LexStepInvariant(src, z) ==
  LET n == Len(z.toks) IN
  /\ z.i <= Len(src) /\ z.lb <= z.i
  /\ n > 0 => LET t == z.toks[n] IN
       /\ t.b < t.e
       /\ t.t = "E" => t.l = z.l - 1
       /\ t.t # "E" => t.l = z.l /\ z.lb + t.e <= z.i
                       /\ (n > 1 /\ z.toks[n-1].l = t.l => z.toks[n-1].e <= t.b)
=============================================================================
