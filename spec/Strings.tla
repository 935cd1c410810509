------------------------------ MODULE Strings ------------------------------
(* String literals: where one ends and what its value is.                     *)
EXTENDS Chars
\* index of the closing quote of the literal whose content starts at i, 0 if there is none
RECURSIVE StrEnd(_, _)
StrEnd(t, i) == IF i > Len(t) THEN 0
                ELSE IF t[i] = Quote THEN i
                ELSE IF t[i] # Backslash THEN StrEnd(t, i + 1)
                ELSE IF i < Len(t) /\ t[i + 1] # NL THEN StrEnd(t, i + 2) ELSE 0

Hex == DigitS \cup Chs("abcdefABCDEF")
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in Upper THEN c - 55 ELSE c - 87
RECURSIVE HexNum(_, _)
HexNum(ds, acc) == IF ds = <<>> THEN acc
                   ELSE IF acc > 1114111 THEN acc
                   ELSE HexNum(Tail(ds), acc * 16 + HexVal(Head(ds)))
IsScalar(n) == n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)
Simple == [ c \in Chs("bfnrt'\"\\/") |->
             CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c ]
Oct == 48..55
OctLen(b, i) == IF i + 1 <= Len(b) /\ b[i + 1] \in Oct
                THEN (IF i + 2 <= Len(b) /\ b[i + 2] \in Oct /\ b[i] <= 51 THEN 3 ELSE 2) ELSE 1
\* value of the literal's body, <<ok, code points>>
RECURSIVE UnescFrom(_, _, _)
UnescFrom(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF b[i] # Backslash THEN UnescFrom(b, i + 1, Append(acc, b[i]))
  ELSE IF i = Len(b) THEN [ok |-> FALSE]
  ELSE LET c == b[i + 1] IN
    IF c \in DOMAIN Simple THEN UnescFrom(b, i + 2, Append(acc, Simple[c]))
    ELSE IF c = 120 THEN                                     \* \xNN
      IF i + 3 <= Len(b) /\ b[i + 2] \in Hex /\ b[i + 3] \in Hex
      THEN UnescFrom(b, i + 4, Append(acc, HexNum(SubSeq(b, i + 2, i + 3), 0)))
      ELSE [ok |-> FALSE]
    ELSE IF c = 117 THEN                                     \* \uXXXX or \u{X..}
      IF i + 2 <= Len(b) /\ b[i + 2] = 123
      THEN LET j == Find(b, i + 3, 125)
               ds == SubSeq(b, i + 3, j - 1)
           IN IF j > i + 3 /\ (\A k \in 1..Len(ds) : ds[k] \in Hex) /\ IsScalar(HexNum(ds, 0))
              THEN UnescFrom(b, j + 1, Append(acc, HexNum(ds, 0))) ELSE [ok |-> FALSE]
      ELSE IF i + 5 <= Len(b) /\ (\A k \in i + 2..i + 5 : b[k] \in Hex) /\ IsScalar(HexNum(SubSeq(b, i + 2, i + 5), 0))
      THEN UnescFrom(b, i + 6, Append(acc, HexNum(SubSeq(b, i + 2, i + 5), 0))) ELSE [ok |-> FALSE]
    ELSE IF c \in Oct THEN
      LET n == OctLen(b, i + 1)
      IN UnescFrom(b, i + 1 + n,
           Append(acc, FoldLeft(LAMBDA x, d : x * 8 + (d - 48), 0, SubSeq(b, i + 1, i + n))))
    ELSE [ok |-> FALSE]
Unescape(b) == IF Find(b, 1, Backslash) = 0 THEN [ok |-> TRUE, v |-> b] ELSE UnescFrom(b, 1, <<>>)
=============================================================================
