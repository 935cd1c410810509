-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as little-endian sequences of limbs base 10^4, *)
(* without leading zero limbs, and exact rationals over them.                  *)
EXTENDS Integers, Sequences, SequencesExt
Base == 10000
Zero == <<>>
One == <<1>>
RECURSIVE Trim0(_)
Trim0(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim0(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i > Len(a) THEN 0 ELSE a[i]
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET x == At(a, i) + At(b, i) + carry
       IN AddFrom(a, b, i + 1, x \div Base, Append(acc, x % Base))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)

\* a - b, for a >= b
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN Trim0(acc)
  ELSE LET x == a[i] - At(b, i) - borrow
       IN SubFrom(a, b, i + 1, IF x < 0 THEN 1 ELSE 0, Append(acc, IF x < 0 THEN x + Base ELSE x))
Minus(a, b) == SubFrom(a, b, 1, 0, <<>>)

RECURSIVE MulSFrom(_, _, _, _, _)
MulSFrom(a, n, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET x == a[i] * n + carry IN MulSFrom(a, n, i + 1, x \div Base, Append(acc, x % Base))
MulS(a, n) == IF n = 0 THEN Zero ELSE MulSFrom(a, n, 1, 0, <<>>)   \* n < Base
Shift(a, k) == IF a = Zero THEN a ELSE [i \in 1..k |-> 0] \o a
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, i, acc) == IF i > Len(b) THEN acc
                         ELSE MulFrom(a, b, i + 1, Add(acc, Shift(MulS(a, b[i]), i - 1)))
Mul(a, b) == MulFrom(a, b, 1, Zero)

\* largest q in lo..hi-1 with b*q <= r
RECURSIVE Quot(_, _, _, _)
Quot(r, b, lo, hi) == IF hi - lo = 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN IF Cmp(MulS(b, m), r) <= 0 THEN Quot(r, b, m, hi) ELSE Quot(r, b, lo, m)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i = 0 THEN [q |-> Trim0(q), r |-> r]
  ELSE LET r1 == Trim0(<<a[i]>> \o r)
           d  == IF Cmp(r1, b) < 0 THEN 0 ELSE Quot(r1, b, 0, Base)
       IN DivFrom(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r1 ELSE Minus(r1, MulS(b, d)))
DivMod(a, b) == DivFrom(a, b, Len(a), <<>>, Zero)

RECURSIVE Pow10(_)
Pow10(n) == CASE n = 0 -> <<1>> [] n = 1 -> <<10>> [] n = 2 -> <<100>> [] n = 3 -> <<1000>>
              [] OTHER -> <<0>> \o Pow10(n - 4)
FromInt(n) == IF n = 0 THEN Zero ELSE IF n < Base THEN <<n>>
              ELSE IF n < Base * Base THEN <<n % Base, n \div Base>>
              ELSE <<n % Base, (n \div Base) % Base, n \div (Base * Base)>>

\* decimal digits (most significant first, each a code point 48..57)
RECURSIVE FromDigits(_)
FromDigits(ds) ==
  LET n == Len(ds)
      k == IF n < 4 THEN n ELSE 4
      limb == FoldLeft(LAMBDA x, c : x * 10 + (c - 48), 0, SubSeq(ds, n - k + 1, n))
  IN IF n = 0 THEN Zero ELSE Trim0(<<limb>> \o FromDigits(SubSeq(ds, 1, n - k)))
Limb4(x) == <<48 + (x \div 1000), 48 + ((x \div 100) % 10), 48 + ((x \div 10) % 10), 48 + (x % 10)>>
RECURSIVE Strip0(_)
Strip0(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN Strip0(Tail(ds)) ELSE ds
Digits(a) == IF a = Zero THEN <<48>>
             ELSE Strip0(FoldLeft(LAMBDA acc, x : Limb4(x) \o acc, <<>>, a))

\* 2^96, the bound of the mantissa of a decimal
TwoTo96 == FromDigits(<<55,57,50,50,56,49,54,50,53,49,52,50,54,52,51,51,55,53,57,51,53,52,51,57,53,48,51,51,54>>)
MaxScale == 28
=============================================================================
