------------------------------ MODULE TealText ------------------------------
(***************************************************************************)
(* Text.  A text is a sequence of bytes.  A byte below 128 is written as   *)
(* the one-character string of its ASCII character ("a", "\n", ...), a     *)
(* byte from 128 on as "xHH" (two upper-case hexadecimal digits).          *)
(* Columns are byte offsets, so the length of a text is its width.         *)
(*                                                                         *)
(* TLC's integers have 32 bits, so the 64-bit integers of the language are *)
(* represented by their canonical decimal numeral (a string); conversions  *)
(* work on little-endian limbs in base 10000.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Digits   == <<"0","1","2","3","4","5","6","7","8","9">>
Lowers   == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
Uppers   == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>

\* characters 32 .. 126, in code order
Printables ==
  << " ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/" >> \o Digits \o
  << ":",";","<","=",">","?","@" >> \o Uppers \o
  << "[","\\","]","^","_","`" >> \o Lowers \o
  << "{","|","}","~" >>

HexUp == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>

\* control characters that have a one-character notation; the others are
\* given to the specification as "c0" .. "c31", "c127"
CtlName(n) == CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 12 -> "\f" [] n = 13 -> "\r"
                [] OTHER -> "c" \o ToString(n)

ChrTab == [n \in 0..255 |->
             IF n < 32 \/ n = 127 THEN CtlName(n)
             ELSE IF n < 127 THEN Printables[n - 31]
             ELSE "x" \o HexUp[(n \div 16) + 1] \o HexUp[(n % 16) + 1]]

AllBytes == {ChrTab[n] : n \in 0..255}
\* (written with @@ so that TLC computes the table once)
OrdTab   == FoldLeft(LAMBDA f, n : f @@ (ChrTab[n] :> n), ChrTab[255] :> 255, [n \in 1..255 |-> n - 1])

Chr(n) == ChrTab[n]
Ord(c) == OrdTab[c]
BytesOf(s) == [i \in 1..Len(s) |-> OrdTab[s[i]]]
TextOf(bs) == [i \in 1..Len(bs) |-> ChrTab[bs[i]]]

\* the text as a TLA+ string (for comparisons with names and for output)
Str(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)

\* texts of single-character strings given as literals: T(<<"a","b">>) is itself
IsBlank(c) == c = " " \/ c = "\t"
IsEolChar(c) == c = "\n" \/ c = "\r"
IsSpaceChar(c) == c \in {" ", "\t", "\n", "\r", "\f", "c11"}

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* index (1-based) of the first occurrence of c in s, 0 if there is none
IndexOf(s, c) ==
  LET P == {i \in 1..Len(s) : s[i] = c}
  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

TrimSpace(s) ==
  LET P == {i \in 1..Len(s) : ~ IsSpaceChar(s[i])}
  IN IF P = {} THEN << >>
     ELSE SubSeq(s, CHOOSE i \in P : \A j \in P : i <= j,
                    CHOOSE i \in P : \A j \in P : j <= i)

-----------------------------------------------------------------------------
(* numerals *)

DigitVal(c) ==   \* value of c as a digit in a base up to 36, 99 if it is none
  LET n == OrdTab[c] IN
  IF n >= 48 /\ n <= 57 THEN n - 48
  ELSE IF n >= 97 /\ n <= 122 THEN n - 87
  ELSE IF n >= 65 /\ n <= 90 THEN n - 55
  ELSE 99

\* limbs: little-endian, base 10000
RECURSIVE MulAdd(_, _, _)
MulAdd(ls, m, a) ==
  IF ls = << >> THEN (IF a = 0 THEN << >> ELSE << a >>)
  ELSE LET v == Head(ls) * m + a
       IN << v % 10000 >> \o MulAdd(Tail(ls), m, v \div 10000)

RECURSIVE Norm(_)
Norm(ls) == IF ls # << >> /\ ls[Len(ls)] = 0 THEN Norm(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

RECURSIVE LimbsLe(_, _)
LimbsLe(a, b) ==   \* both normalised
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = << >> THEN TRUE
  ELSE LET n == Len(a) IN
       IF a[n] # b[n] THEN a[n] < b[n] ELSE LimbsLe(SubSeq(a, 1, n-1), SubSeq(b, 1, n-1))

Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)

Numeral(ls) ==
  LET m == Norm(ls) IN
  IF m = << >> THEN "0"
  ELSE LET n == Len(m) IN
       FoldLeft(LAMBDA a, i : a \o Pad4(m[n - i]), ToString(m[n]), [i \in 1..(n-1) |-> i])

MaxUint64 == << 1615, 955, 737, 6744, 1844 >>    \* 18446744073709551615

NoNum == [ok |-> FALSE, v |-> "0", n |-> 0]
\* n is the value when it is below 10^8, -1 otherwise
Num(ls) == [ok |-> TRUE, v |-> Numeral(ls),
            n |-> LET m == Norm(ls) IN
                  IF Len(m) = 0 THEN 0 ELSE IF Len(m) = 1 THEN m[1]
                  ELSE IF Len(m) = 2 THEN m[2] * 10000 + m[1] ELSE -1]

\* digits of s (underscores skipped) in the given base; ok iff all are digits
\* and the value does not exceed max
DigitsValue(s, base, max) ==
  LET step(acc, c) ==
        IF ~ acc.ok \/ c = "_" THEN acc
        ELSE LET d == DigitVal(c) IN
             IF d >= base THEN [ok |-> FALSE, ls |-> << >>]
             ELSE LET ls == Norm(MulAdd(acc.ls, base, d)) IN
                  IF LimbsLe(ls, max) THEN [ok |-> TRUE, ls |-> ls]
                  ELSE [ok |-> FALSE, ls |-> << >>]
      r == FoldLeft(step, [ok |-> TRUE, ls |-> << >>], s)
  IN IF r.ok THEN Num(r.ls) ELSE NoNum

\* an underscore must separate digits, or a base prefix and a digit
UnderscoresOk(s) ==
  LET pre == Len(s) >= 2 /\ s[1] = "0" /\ s[2] \in {"b","B","o","O","x","X"}
      hex == pre /\ s[2] \in {"x","X"}
      body == IF pre THEN SubSeq(s, 3, Len(s)) ELSE s
      isd(c) == LET d == DigitVal(c) IN d < 10 \/ (hex /\ d < 16)
      step(st, c) ==
        IF st = "bad" THEN "bad"
        ELSE IF isd(c) THEN "digit"
        ELSE IF c = "_" THEN (IF st = "digit" THEN "under" ELSE "bad")
        ELSE IF st = "under" THEN "bad" ELSE "other"
      r == FoldLeft(step, IF pre THEN "digit" ELSE "start", body)
  IN r \notin {"bad", "under"}

\* 64-bit integer in any notation (decimal, 0x, 0o, 0b, leading 0 for octal)
ParseUint64(s) ==
  IF s = << >> THEN NoNum
  ELSE
    LET two == Len(s) >= 3 /\ s[1] = "0"
        base == IF two /\ s[2] \in {"b","B"} THEN 2
                ELSE IF two /\ s[2] \in {"o","O"} THEN 8
                ELSE IF two /\ s[2] \in {"x","X"} THEN 16
                ELSE IF s[1] = "0" THEN 8 ELSE 10
        body == IF base = 10 THEN s
                ELSE IF two /\ s[2] \in {"b","B","o","O","x","X"} THEN SubSeq(s, 3, Len(s))
                ELSE SubSeq(s, 2, Len(s))
        under == \E i \in 1..Len(s) : s[i] = "_"
    IN IF under /\ ~ UnderscoresOk(s) THEN NoNum
       ELSE DigitsValue(body, base, MaxUint64)

\* decimal integer 0 .. 255, without sign, prefix or underscores
ParseUint8(s) ==
  IF s = << >> \/ \E i \in 1..Len(s) : s[i] = "_" THEN NoNum
  ELSE DigitsValue(s, 10, << 255 >>)

\* decimal integer -128 .. 127 with an optional sign
ParseInt8(s) ==
  IF s = << >> THEN NoNum
  ELSE LET neg == s[1] = "-"
           body == IF s[1] \in {"-", "+"} THEN Tail(s) ELSE s
       IN IF body = << >> \/ \E i \in 1..Len(body) : body[i] = "_" THEN NoNum
          ELSE LET r == DigitsValue(body, 10, << IF neg THEN 128 ELSE 127 >>)
               IN IF ~ r.ok THEN NoNum
                  ELSE IF neg /\ r.n # 0 THEN [ok |-> TRUE, v |-> "-" \o r.v, n |-> 0 - r.n]
                  ELSE r

\* decimal integer as read for hints (sign allowed, leading zeros allowed);
\* only its value below 256 matters
ParseDec(s) ==
  IF s = << >> THEN NoNum
  ELSE LET body == IF s[1] \in {"-", "+"} THEN Tail(s) ELSE s
       IN IF body = << >> \/ \E i \in 1..Len(body) : body[i] = "_" THEN NoNum
          ELSE LET r == DigitsValue(body, 10, MaxUint64)
               IN IF ~ r.ok THEN NoNum
                  ELSE IF s[1] = "-" /\ r.n # 0 THEN [ok |-> TRUE, v |-> "-" \o r.v, n |-> -1]
                  ELSE r

\* values of numerals written by the specification itself
NumTab == FoldLeft(LAMBDA f, n : f @@ (ToString(n) :> n), "0" :> 0, [n \in 1..384 |-> n - 129])
SmallNumeral(s) == s \in DOMAIN NumTab
ParseDecStr(s) == NumTab[s]

-----------------------------------------------------------------------------
(* byte encodings: each returns [ok, bytes] *)

NoBytes == [ok |-> FALSE, bytes |-> << >>]

HexDecode(s) ==
  IF Len(s) % 2 # 0 \/ \E i \in 1..Len(s) : DigitVal(s[i]) >= 16 THEN NoBytes
  ELSE [ok |-> TRUE,
        bytes |-> [i \in 1..(Len(s) \div 2) |-> 16 * DigitVal(s[2*i - 1]) + DigitVal(s[2*i])]]

B32Val(c) == LET n == OrdTab[c] IN
  IF n >= 65 /\ n <= 90 THEN n - 65 ELSE IF n >= 50 /\ n <= 55 THEN n - 24 ELSE 99
B64Val(c) == LET n == OrdTab[c] IN
  IF n >= 65 /\ n <= 90 THEN n - 65 ELSE IF n >= 97 /\ n <= 122 THEN n - 71
  ELSE IF n >= 48 /\ n <= 57 THEN n + 4 ELSE IF c = "+" THEN 62 ELSE IF c = "/" THEN 63 ELSE 99

\* the bits of the digits (w bits each), grouped into whole bytes; left-over
\* bits are dropped
Regroup(ds, w) ==
  LET bit(k) == LET d == ds[(k \div w) + 1] IN (d \div (2 ^ (w - 1 - (k % w)))) % 2
      n == (Len(ds) * w) \div 8
      byte(i) == FoldLeft(LAMBDA a, j : 2 * a + bit(8 * (i - 1) + j), 0, <<0,1,2,3,4,5,6,7>>)
  IN [i \in 1..n |-> byte(i)]

\* number of trailing "=" signs
PadLen(s) == LET P == {i \in 1..Len(s) : \A j \in i..Len(s) : s[j] = "="} IN Cardinality(P)

\* line ends inside the text are not part of the encoding (they cannot occur
\* inside a word)
Base64Decode(s) ==
  LET p == PadLen(s)
      body == SubSeq(s, 1, Len(s) - p)
  IN IF Len(s) % 4 # 0 \/ p > 2 \/ \E i \in 1..Len(body) : B64Val(body[i]) = 99 THEN NoBytes
     ELSE [ok |-> TRUE, bytes |-> Regroup([i \in 1..Len(body) |-> B64Val(body[i])], 6)]

Base32Digits(body) == \A i \in 1..Len(body) : B32Val(body[i]) # 99
Base32DecodeBody(body) ==
  [ok |-> TRUE, bytes |-> Regroup([i \in 1..Len(body) |-> B32Val(body[i])], 5)]

Base32Decode(s) ==   \* with the standard padding or without any
  LET p == PadLen(s)
      body == SubSeq(s, 1, Len(s) - p)
      r == Len(body) % 8
  IN IF ~ Base32Digits(body) THEN NoBytes
     ELSE IF p = 0 THEN  \* an incomplete last group of 1, 3 or 6 digits is dropped
       Base32DecodeBody(IF r \in {1, 3, 6} THEN SubSeq(body, 1, Len(body) - r) ELSE body)
     ELSE IF Len(s) % 8 = 0 /\ p \in {1, 3, 4, 6} THEN Base32DecodeBody(body)
     ELSE NoBytes

\* the inside of a quoted literal (escaped quotes already replaced)
StringDecode(s) ==
  LET step(a, c) ==
        IF ~ a.ok THEN a
        ELSE IF a.st = "hex1" THEN
          (IF DigitVal(c) < 16 THEN [a EXCEPT !.st = "hex2", !.h = DigitVal(c)]
                               ELSE [a EXCEPT !.ok = FALSE])
        ELSE IF a.st = "hex2" THEN
          (IF DigitVal(c) < 16 THEN [a EXCEPT !.st = "", !.bytes = Append(@, 16 * a.h + DigitVal(c))]
                               ELSE [a EXCEPT !.ok = FALSE])
        ELSE IF a.st = "esc" THEN
          CASE c = "n" -> [a EXCEPT !.st = "", !.bytes = Append(@, 10)]
            [] c = "r" -> [a EXCEPT !.st = "", !.bytes = Append(@, 13)]
            [] c = "t" -> [a EXCEPT !.st = "", !.bytes = Append(@, 9)]
            [] c = "\\" -> [a EXCEPT !.st = "", !.bytes = Append(@, 92)]
            [] c = "\"" -> [a EXCEPT !.st = "", !.bytes = Append(@, 34)]
            [] c = "x" -> [a EXCEPT !.st = "hex1"]
            [] OTHER -> [a EXCEPT !.ok = FALSE]
        ELSE IF c = "\\" THEN [a EXCEPT !.st = "esc"]
        ELSE [a EXCEPT !.bytes = Append(@, OrdTab[c])]
      r == FoldLeft(step, [ok |-> TRUE, st |-> "", h |-> 0, bytes |-> << >>], s)
  IN IF r.ok /\ r.st = "" THEN [ok |-> TRUE, bytes |-> r.bytes] ELSE NoBytes

Printable(bs) == \A i \in 1..Len(bs) : bs[i] >= 32 /\ bs[i] <= 126
=============================================================================
