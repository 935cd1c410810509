------------------------------- MODULE Chars -------------------------------
(* Texts are sequences of Unicode code points.  This module gives the        *)
(* character classes the ledger syntax distinguishes, the UTF-8 width of a    *)
(* character, and code-point constants for readable literals, C("txn").       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ ch \in {SubSeq(Printable, k, k) : k \in 1..95} |->
              31 + (CHOOSE k \in 1..95 : SubSeq(Printable, k, k) = ch) ]
Code1(ch) == IF ch = "\n" THEN 10 ELSE IF ch = "\t" THEN 9 ELSE IF ch = "\r" THEN 13 ELSE CodeOf[ch]
\* the code points of a string literal of this specification
C(str) == [ i \in 1..Len(str) |-> Code1(SubSeq(str, i, i)) ]
Chs(str) == { C(str)[i] : i \in 1..Len(str) }

NL == 10
CR == 13
Quote == 34
Backslash == 92

Blank == {32, 9}
Upper == 65..90
Lower == 97..122
Digit == 48..57
UpperS == { i : i \in 65..90 }

(* Representatives of the Unicode general categories.  Texts handed to the    *)
(* specification use no non-ASCII character outside these lists.              *)
Lu == {201, 220, 209, 916, 931, 1046}     \* E acute, U umlaut, N tilde, Delta, Sigma, Zhe
Lo == {170, 1488, 12354, 26085, 26412, 35486, 131072}  \* fem. ordinal, alef, hiragana, Han, a Han beyond the BMP
LOther == {223, 228, 233, 241, 246, 252, 1078, 453, 688}     \* Ll .., Lt, Lm
Nx == {178, 189, 1635, 8551, 65301}      \* No, No, Nd, Nl, Nd
WideSpace == {133, 160, 8232, 12288}     \* white space, but not for the lexer
Other == {8364, 128512, 769, 8211}       \* Sc, So, Mn, Pd

\* white space in the sense of Unicode White_Space (trailing white space of spans)
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32} \/ c \in WideSpace

AccFirst  == UpperS \cup Lu \cup Lo
AccRest   == UpperS \cup { i : i \in Lower } \cup { i : i \in Digit } \cup {45} \cup Lu \cup Lo \cup LOther \cup Nx
NameFirst == AccFirst \cup { i : i \in Digit } \cup Nx
DigitS    == { i : i \in Digit }
CurRest   == UpperS \cup DigitS \cup Chs("'._-")
SlashRest == DigitS \cup Chs("'._-")
TagCh     == UpperS \cup { i : i \in Lower } \cup DigitS \cup Chs("-_/.")
KeyRest   == UpperS \cup { i : i \in Lower } \cup DigitS \cup Chs("-_")
IgnFirst  == Chs("*!&#?%:")

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
\* Offsets(t)[i] is the byte offset of the i-th character, Offsets(t)[Len(t)+1] the length in bytes
Offsets(t) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + Width(c)), <<0>>, t)

\* first index >= i whose character is not in S
RECURSIVE Span1(_, _, _)
Span1(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN Span1(t, i + 1, S) ELSE i
\* first index >= i holding character c, or 0
RECURSIVE Find(_, _, _)
Find(t, i, c) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE Find(t, i + 1, c)
Count(t, c) == FoldLeft(LAMBDA n, x : IF x = c THEN n + 1 ELSE n, 0, t)

\* lexicographic comparison of code-point sequences
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(b) THEN FALSE
                   ELSE IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i + 1)
Lt(a, b) == LtFrom(a, b, 1)

\* split at every occurrence of character c (at least one field)
Split(t, c) == FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>)
                                        ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)], << <<>> >>, t)
ToLower(t) == [ i \in 1..Len(t) |-> IF t[i] \in Upper THEN t[i] + 32 ELSE t[i] ]
Sub(t, i, j) == SubSeq(t, i, j)
=============================================================================
