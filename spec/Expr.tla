-------------------------------- MODULE Expr --------------------------------
(* Arithmetic expressions: grouping, and exact value rounded half away from    *)
(* zero to the largest scale of any number in the expression.                  *)
EXTENDS Lexer, TLC
Fail == [ok |-> FALSE]
Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
K(ts, p) == IF p <= Len(ts) THEN ts[p].k ELSE "end"

RECURSIVE PExpr(_, _)
PFactor(ts, p) ==
  LET q == IF K(ts, p) \in {"+", "-"} THEN p + 1 ELSE p
      sg(x) == IF K(ts, p) = "-" THEN [t |-> "neg", a |-> x] ELSE x
  IN IF K(ts, q) = "num" THEN Ok(q + 1, sg([t |-> "n", n |-> ts[q].v]))
     ELSE IF K(ts, q) = "(" THEN
       LET r == PExpr(ts, q + 1)
       IN IF r.ok /\ K(ts, r.p) = ")" THEN Ok(r.p + 1, sg([t |-> "()", a |-> r.v])) ELSE Fail
     ELSE Fail
RECURSIVE PProdTail(_, _, _)
PProdTail(ts, p, x) ==
  IF K(ts, p) \in {"*", "/"}
  THEN LET r == PFactor(ts, p + 1)
       IN IF r.ok THEN PProdTail(ts, r.p, [t |-> K(ts, p), a |-> x, b |-> r.v]) ELSE Ok(p, x)
  ELSE Ok(p, x)
PProd(ts, p) == LET r == PFactor(ts, p) IN IF r.ok THEN PProdTail(ts, r.p, r.v) ELSE Fail
RECURSIVE PSumTail(_, _, _)
PSumTail(ts, p, x) ==
  IF K(ts, p) \in {"+", "-"}
  THEN LET r == PProd(ts, p + 1)
       IN IF r.ok THEN PSumTail(ts, r.p, [t |-> K(ts, p), a |-> x, b |-> r.v]) ELSE Ok(p, x)
  ELSE Ok(p, x)
PExpr(ts, p) == LET r == PProd(ts, p) IN IF r.ok THEN PSumTail(ts, r.p, r.v) ELSE Fail

-----------------------------------------------------------------------------
(* Exact rational value: k "v" with sign neg and magnitude n/d, ns decimals     *)
(* suffice to write it, ix if a decimal of 96 bits and 28 places cannot hold    *)
(* it or an intermediate result exactly, in which case the value carried may be  *)
(* off by as much as 10^er; or k "err" (zero divisor, overflow), or k "wild"   *)
(* where an inexact result decides whether there is an error.                   *)
Exact == -1000
\* n/d lies between 10^LowExp and 10^HighExp (for n > 0)
NDig(n) == Len(Digits(n))
HighExp(n, d) == NDig(n) - NDig(d) + 1
LowExp(n, d) == NDig(n) - NDig(d) - 1
RErr == [k |-> "err"]
RWild == [k |-> "wild"]
\* decimal places needed to write n/d exactly, MaxScale + 1 if more than that
MinPlaces(n, d) == LET qr == DivMod(Mul(n, Pow10(MaxScale)), d)
                       ds == Digits(qr.q)
                       nz == { i \in 1..Len(ds) : ds[i] # 48 }
                       tz == Len(ds) - Max({0} \cup nz)
                   IN IF qr.r # Zero THEN MaxScale + 1 ELSE IF nz = {} \/ tz >= MaxScale THEN 0 ELSE MaxScale - tz
Mk(neg, n, d, ns, ix, er) ==
  LET lim == Mul(d, TwoTo96) IN
  IF Cmp(n, lim) >= 0 THEN (IF ix THEN RWild ELSE RErr)
  ELSE LET tooLong == ns > MaxScale \/ (Len(n) + (ns \div 4) + 2 >= Len(lim) /\ Cmp(Mul(n, Pow10(ns)), lim) >= 0)
       IN [k |-> "v", neg |-> neg, n |-> n, d |-> d, ns |-> IF ns > MaxScale THEN MaxScale ELSE ns, ix |-> ix \/ tooLong,
           er |-> IF tooLong THEN Max2(er, Max2(-MaxScale, HighExp(n, d) - 27)) + 1 ELSE er]
SumR(x, y) ==
  LET a == Mul(x.n, y.d)
      b == Mul(y.n, x.d)
      d == Mul(x.d, y.d)
      ns == Max2(x.ns, y.ns)
      ix == x.ix \/ y.ix
      er == IF ix THEN Max2(x.er, y.er) + 1 ELSE Exact
  IN IF x.neg = y.neg THEN Mk(x.neg, Add(a, b), d, ns, ix, er)
     ELSE IF Cmp(a, b) >= 0 THEN Mk(x.neg, Minus(a, b), d, ns, ix, er) ELSE Mk(y.neg, Minus(b, a), d, ns, ix, er)
MulEr(a, b) == IF ~(a.ix \/ b.ix) THEN Exact
               ELSE Max2(HighExp(a.n, a.d) + b.er, Max2(HighExp(b.n, b.d) + a.er, a.er + b.er)) + 2
\* of a quotient; nothing is known when the divisor may as well be zero
DivEr(a, b) == IF ~(a.ix \/ b.ix) THEN Exact
               ELSE LET lb == LowExp(b.n, b.d)
                    IN IF b.ix /\ b.er >= lb - 1 THEN 1000
                       ELSE Max2(a.er - lb, HighExp(a.n, a.d) - lb + b.er - lb) + 2
NegR(x) == [x EXCEPT !.neg = ~@]
RECURSIVE EvalR(_)
EvalR(x) ==
  IF x.t = "n" THEN [k |-> "v", neg |-> FALSE, n |-> x.n.m, d |-> Pow10(x.n.s), ns |-> x.n.s, ix |-> FALSE, er |-> Exact]
  ELSE IF x.t = "()" THEN EvalR(x.a)
  ELSE IF x.t = "neg" THEN (LET a == EvalR(x.a) IN IF a.k # "v" THEN a ELSE NegR(a))
  ELSE LET a == EvalR(x.a)
           b == EvalR(x.b)
       IN IF a.k = "err" \/ b.k = "err" THEN RErr
          ELSE IF a.k = "wild" \/ b.k = "wild" THEN RWild
          ELSE CASE x.t = "+" -> SumR(a, b)
                 [] x.t = "-" -> SumR(a, NegR(b))
                 [] x.t = "*" -> Mk(a.neg # b.neg, Mul(a.n, b.n), Mul(a.d, b.d), a.ns + b.ns, a.ix \/ b.ix, MulEr(a, b))
                 [] x.t = "/" -> IF b.n = Zero THEN (IF b.ix THEN RWild ELSE RErr)
                                 ELSE LET n == Mul(a.n, b.d)
                                          d == Mul(a.d, b.n)
                                          mp == MinPlaces(n, d)
                                      IN Mk(a.neg # b.neg, n, d, mp, a.ix \/ b.ix, DivEr(a, b))
RECURSIVE ScaleOf(_)
ScaleOf(x) == IF x.t = "n" THEN x.n.s
              ELSE IF x.t \in {"()", "neg"} THEN ScaleOf(x.a) ELSE Max2(ScaleOf(x.a), ScaleOf(x.b))

\* decimals, as shown to the outside: the mantissa's digits and the scale
Str(cs) == [str |-> cs]
DecOf(neg, mag, sc) == [m |-> Str(IF neg /\ mag # Zero THEN <<45>> \o Digits(mag) ELSE Digits(mag)), s |-> sc]
\* the allowed values: k "dec" with alternatives any, "err", or "wild" (a value or an error, unspecified)
Value(x) ==
  LET r == EvalR(x)
      s == ScaleOf(x)
  IN IF r.k # "v" THEN r
     ELSE LET qr == DivMod(Mul(r.n, Pow10(s)), r.d)
              up == Cmp(Add(qr.r, qr.r), r.d) >= 0
              mag == IF up THEN Add(qr.q, One) ELSE qr.q
              \* six more digits, to tell ties after inexact intermediate results
              fr == DivMod(Mul(qr.r, Pow10(6)), r.d).q
              tie == fr \in {FromInt(499999), FromInt(500000)}
          IN IF r.ix /\ (Cmp(mag, Pow10(26)) >= 0 \/ r.er + s > -7) THEN [k |-> "wild"]
             ELSE IF Cmp(mag, TwoTo96) >= 0 THEN [k |-> "wild"]
             ELSE IF r.ix /\ tie THEN [k |-> "dec", any |-> <<DecOf(r.neg, qr.q, s), DecOf(r.neg, Add(qr.q, One), s)>>]
             ELSE [k |-> "dec", any |-> <<DecOf(r.neg, mag, s)>>]

RECURSIVE XJson(_)
XJson(x) == IF x.t = "n" THEN DecOf(FALSE, x.n.m, x.n.s)
            ELSE IF x.t \in {"()", "neg"} THEN <<x.t, XJson(x.a)>> ELSE <<x.t, XJson(x.a), XJson(x.b)>>
=============================================================================
