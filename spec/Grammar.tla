------------------------------ MODULE Grammar ------------------------------
(* From a block of token lines to a declaration.  cx is the context of the     *)
(* block: [src |-> source id, names |-> the five account type names].           *)
(* A block which is not exactly one declaration is malformed (Fail).            *)
(* Results are in the shape in which the conformance harness shows them:        *)
(*   [v |-> value, sp |-> span] leaves, [str |-> code points] strings,          *)
(*   [o |-> <<>>] / [o |-> <<x>>] optional values.                              *)
EXTENDS Expr

TypeNames == <<"Assets", "Liabilities", "Equity", "Income", "Expenses">>
DefaultNames == [ i \in 1..5 |-> C(TypeNames[i]) ]

None == [o |-> <<>>]
Some(x) == [o |-> <<x>>]
\* spans: exact <<source, start, end, first line, last line>>
Sp(cx, a, b) == <<cx.src, a.s, b.e, a.l, b.m>>
SpI(cx, ts, p, q) == Sp(cx, ts[p], ts[q - 1])      \* of tokens p..q-1
\* a span which is only bounded: start within s0..s1, end within e0..e1
SpR(src, s0, s1, e0, e1) == [rng |-> <<src, s0, s1, e0, e1>>]
Leaf(v, sp) == [v |-> v, sp |-> sp]
TokLeaf(cx, x) == Leaf(Str(x.v), Sp(cx, x, x))

\* errors: n of them, each located at one of the places in "at"
ErrAt(places, n) == [at |-> places, n |-> n]
\* the same, also pointing at the places rel
ErrRel(places, n, rel) == [at |-> places, n |-> n, rel |-> rel]

Ok3(p, v, er) == [ok |-> TRUE, p |-> p, v |-> v, er |-> er]

-----------------------------------------------------------------------------
\* An expression: v is the number (value and tree), er an error if it has no value
PNum(cx, ts, p) ==
  LET r == PExpr(ts, p) IN
  IF ~r.ok THEN Fail
  ELSE LET val == Value(r.v)
           sp == SpI(cx, ts, p, r.p)
       IN [ok |-> TRUE, p |-> r.p, sp |-> sp,
           v |-> [v |-> IF val.k = "dec" THEN [any |-> val.any] ELSE [any |-> <<>>], x |-> XJson(r.v)],
           er |-> IF val.k = "err" THEN <<ErrAt(<<sp>>, 1)>>
                  ELSE IF val.k = "wild" THEN <<ErrAt(<<sp>>, 0)>> ELSE <<>>]
NumLeaf(r) == Leaf(r.v, r.sp)

TypeOf(cx, cs) == LET ty == SubSeq(cs, 1, Find(cs, 1, 58) - 1)
                      is == { i \in 1..5 : cx.names[i] = ty }
                  IN IF is = {} THEN "none" ELSE TypeNames[CHOOSE i \in is : TRUE]
IsAcc(cx, ts, p) == K(ts, p) = "acc" /\ TypeOf(cx, ts[p].v) # "none"
AccLeaf(cx, x) == [v |-> Str(x.v), at |-> TypeOf(cx, x.v), sp |-> Sp(cx, x, x)]
CurLeaf(cx, x) == TokLeaf(cx, x)
DateLeaf(cx, x) == Leaf(x.v, Sp(cx, x, x))

PAmount(cx, ts, p) ==
  LET r == PNum(cx, ts, p) IN
  IF r.ok /\ K(ts, r.p) = "cur"
  THEN Ok3(r.p + 1, [n |-> NumLeaf(r), c |-> CurLeaf(cx, ts[r.p])], r.er) ELSE Fail

\* a metadata or custom value
PMeta(cx, ts, p) ==
  LET a == PAmount(cx, ts, p)
      n == PNum(cx, ts, p)
      k == K(ts, p)
      one(v) == Ok3(p + 1, v, <<>>)
  IN IF a.ok THEN Ok3(a.p, [t |-> "amt", v |-> a.v], a.er)
     ELSE IF n.ok THEN Ok3(n.p, [t |-> "num", v |-> n.v], n.er)
     ELSE IF k = "acc" THEN (IF IsAcc(cx, ts, p) THEN one([t |-> "acc", v |-> Str(ts[p].v), at |-> TypeOf(cx, ts[p].v)]) ELSE Fail)
     ELSE IF k \in {"str", "cur", "tag", "link"} THEN one([t |-> k, v |-> Str(ts[p].v)])
     ELSE IF k = "date" THEN one([t |-> "date", v |-> ts[p].v])
     ELSE IF k = "TRUE" THEN one([t |-> "bool", v |-> TRUE])
     ELSE IF k = "FALSE" THEN one([t |-> "bool", v |-> FALSE])
     ELSE IF k = "NULL" THEN one([t |-> "null"])
     ELSE Fail

\* key ':' value?
PKeyValue(cx, ts, p) ==
  IF K(ts, p) = "key" /\ K(ts, p + 1) = ":"
  THEN LET r == PMeta(cx, ts, p + 2)
           key == TokLeaf(cx, ts[p])
       IN IF r.ok THEN Ok3(r.p, [k |-> key, val |-> Leaf(r.v, SpI(cx, ts, p + 2, r.p))], r.er)
          ELSE Ok3(p + 2, [k |-> key, val |-> Leaf([t |-> "null"], [free |-> TRUE])], <<>>)
  ELSE Fail

-----------------------------------------------------------------------------
\* Tags, links and key/values are collected in order; a value occurring n times gives n-1 errors
NoMeta == [tags |-> <<>>, links |-> <<>>, meta |-> <<>>, er |-> <<>>]
\* leaves with equal values, in groups
GroupErrs(leaves) ==
  LET vals == { leaves[i].v : i \in 1..Len(leaves) }
      dup(v) == SelectSeq(leaves, LAMBDA x : x.v = v)
      bad == { v \in vals : Len(dup(v)) > 1 }
  IN SetToSeq({ ErrAt([ i \in 1..Len(dup(v)) |-> dup(v)[i].sp ], Len(dup(v)) - 1) : v \in bad })
MetaErrs(m) == m.er \o GroupErrs(m.tags) \o GroupErrs(m.links) \o GroupErrs([ i \in 1..Len(m.meta) |-> m.meta[i].k ])

RECURSIVE PTagsLinks(_, _, _, _)
PTagsLinks(cx, ts, p, m) ==
  IF K(ts, p) = "tag" THEN PTagsLinks(cx, ts, p + 1, [m EXCEPT !.tags = Append(@, TokLeaf(cx, ts[p]))])
  ELSE IF K(ts, p) = "link" THEN PTagsLinks(cx, ts, p + 1, [m EXCEPT !.links = Append(@, TokLeaf(cx, ts[p]))])
  ELSE Ok(p, m)

\* a metadata line: a key/value, or a single tag or link
PMetaLine(cx, ts, m) ==
  LET kv == PKeyValue(cx, ts, 1) IN
  IF kv.ok /\ kv.p > Len(ts) THEN Ok(0, [m EXCEPT !.meta = Append(@, kv.v), !.er = @ \o kv.er])
  ELSE IF Len(ts) = 1 /\ ts[1].k \in {"tag", "link"} THEN Ok(0, PTagsLinks(cx, ts, 1, m).v)
  ELSE Fail
\* metadata lines from line i on, as many as there are: p is the first other line
RECURSIVE PMetaLines(_, _, _, _)
PMetaLines(cx, b, i, m) ==
  IF i > Len(b) THEN Ok(i, m)
  ELSE LET r == PMetaLine(cx, b[i], m) IN IF r.ok THEN PMetaLines(cx, b, i + 1, r.v) ELSE Ok(i, m)

-----------------------------------------------------------------------------
\* Postings
FlagOf(x) == IF x.k = "flag" THEN Str(x.v) ELSE IF x.k = "#" THEN Str(<<35>>) ELSE Str(<<42>>)
IsFlag(ts, p) == K(ts, p) \in {"flag", "*", "#"}

\* compound amount of a cost: per-unit and/or total numbers and a currency
\* v: [per, total, cur] each <<>> or <<[item, s, e]>>, where s..e bound the item's own tokens
Item(cx, ts, r, p) == <<[v |-> r.v, s |-> ts[p].s, e |-> ts[r.p - 1].e]>>
PCompoundExpr(cx, ts, p) ==
  LET a == PNum(cx, ts, p) IN
  IF a.ok THEN
    IF K(ts, a.p) = "#" THEN
      LET b == PNum(cx, ts, a.p + 1) IN
      IF b.ok THEN Ok3(b.p, [per |-> Item(cx, ts, a, p), total |-> Item(cx, ts, b, a.p + 1)], a.er \o b.er)
      ELSE Ok3(a.p + 1, [per |-> Item(cx, ts, a, p), total |-> <<>>], a.er)
    ELSE Ok3(a.p, [per |-> Item(cx, ts, a, p), total |-> <<>>], a.er)
  ELSE IF K(ts, p) = "#" THEN
    LET b == PNum(cx, ts, p + 1) IN
    IF b.ok THEN Ok3(b.p, [per |-> <<>>, total |-> Item(cx, ts, b, p + 1)], b.er) ELSE Fail
  ELSE Fail
TokItem(x, v) == <<[v |-> v, s |-> x.s, e |-> x.e]>>
NoComp == [per |-> <<>>, total |-> <<>>, cur |-> <<>>, date |-> <<>>, label |-> <<>>, merge |-> <<>>]
PCostComp(cx, ts, p) ==
  LET ce == PCompoundExpr(cx, ts, p)
      h == IF K(ts, p) = "#" THEN p + 1 ELSE p
      x == ts[p]
  IN IF ce.ok THEN
       LET c == K(ts, ce.p) = "cur"
           v == [NoComp EXCEPT !.per = ce.v.per, !.total = ce.v.total,
                               !.cur = IF c THEN TokItem(ts[ce.p], Str(ts[ce.p].v)) ELSE <<>>]
       IN Ok3(IF c THEN ce.p + 1 ELSE ce.p, v, ce.er)
     ELSE IF K(ts, h) = "cur" THEN Ok3(h + 1, [NoComp EXCEPT !.cur = TokItem(ts[h], Str(ts[h].v))], <<>>)
     ELSE IF K(ts, p) = "date" THEN Ok3(p + 1, [NoComp EXCEPT !.date = TokItem(x, x.v)], <<>>)
     ELSE IF K(ts, p) = "str" THEN Ok3(p + 1, [NoComp EXCEPT !.label = TokItem(x, Str(x.v))], <<>>)
     ELSE IF K(ts, p) = "*" THEN Ok3(p + 1, [NoComp EXCEPT !.merge = TokItem(x, TRUE)], <<>>)
     ELSE Fail
\* give the items of a component the component's span as outer bounds
Bounded(cx, it, cs, ce) == IF it = <<>> THEN <<>> ELSE <<Leaf(it[1].v, SpR(cx.src, cs, it[1].s, it[1].e, ce))>>
CompBounds(cx, v, cs, ce) == [ f \in DOMAIN v |-> Bounded(cx, v[f], cs, ce) ]
\* no field twice
Disjoint(a, b) == \A f \in DOMAIN a : a[f] = <<>> \/ b[f] = <<>>
Joined(a, b) == [ f \in DOMAIN a |-> a[f] \o b[f] ]
RECURSIVE PCostTail(_, _, _, _, _)
PCostTail(cx, ts, p, acc, er) ==        \* at a component
  LET r == PCostComp(cx, ts, p) IN
  IF ~r.ok THEN Fail
  ELSE LET v == CompBounds(cx, r.v, ts[p].s, ts[r.p - 1].e) IN
    IF ~Disjoint(acc, v) THEN Fail
    ELSE IF K(ts, r.p) = "," THEN PCostTail(cx, ts, r.p + 1, Joined(acc, v), er \o r.er)
    ELSE IF K(ts, r.p) = "}" THEN Ok3(r.p + 1, Joined(acc, v), er \o r.er)
    ELSE Fail
PCost(cx, ts, p) ==
  IF K(ts, p) # "{" THEN Fail
  ELSE LET r == IF K(ts, p + 1) = "}" THEN Ok3(p + 2, NoComp, <<>>) ELSE PCostTail(cx, ts, p + 1, NoComp, <<>>)
       IN IF ~r.ok THEN Fail
          ELSE Ok3(r.p, [sp |-> SpI(cx, ts, p, r.p), per |-> [o |-> r.v.per], total |-> [o |-> r.v.total],
                         cur |-> [o |-> r.v.cur], date |-> [o |-> r.v.date], label |-> [o |-> r.v.label],
                         merge |-> r.v.merge # <<>>], r.er)
PPrice(cx, ts, p) ==
  IF K(ts, p) \notin {"@", "@@"} THEN Fail
  ELSE LET n == PNum(cx, ts, p + 1)
           q == IF n.ok THEN n.p ELSE p + 1
           c == K(ts, q) = "cur"
           z == IF c THEN q + 1 ELSE q
       IN Ok3(z, [sp |-> SpI(cx, ts, p, z), n |-> IF n.ok THEN Some(n.v) ELSE None,
                  c |-> IF c THEN Some(Str(ts[q].v)) ELSE None,
                  scope |-> IF ~n.ok THEN None ELSE Some(IF K(ts, p) = "@" THEN "unit" ELSE "total")],
              IF n.ok THEN n.er ELSE <<>>)

PPosting(cx, ts) ==
  LET fl == IsFlag(ts, 1)
      p1 == IF fl THEN 2 ELSE 1
      p2 == p1 + 1
      n == PNum(cx, ts, p2)
      p3 == IF n.ok THEN n.p ELSE p2
      c == K(ts, p3) = "cur"
      p4 == IF c THEN p3 + 1 ELSE p3
      co == PCost(cx, ts, p4)
      p5 == IF co.ok THEN co.p ELSE p4
      pr == PPrice(cx, ts, p5)
      p6 == IF pr.ok THEN pr.p ELSE p5
  IN IF ~IsAcc(cx, ts, p1) \/ p6 <= Len(ts) THEN Fail
     ELSE Ok3(p6, [sp |-> SpI(cx, ts, 1, p6),
                   flag |-> IF fl THEN Some(Leaf(FlagOf(ts[1]), Sp(cx, ts[1], ts[1]))) ELSE None,
                   acc |-> AccLeaf(cx, ts[p1]),
                   amt |-> IF n.ok THEN Some(NumLeaf(n)) ELSE None,
                   cur |-> IF c THEN Some(CurLeaf(cx, ts[p3])) ELSE None,
                   cost |-> IF co.ok THEN Some(co.v) ELSE None,
                   price |-> IF pr.ok THEN Some(pr.v) ELSE None],
              (IF n.ok THEN n.er ELSE <<>>) \o (IF co.ok THEN co.er ELSE <<>>) \o (IF pr.ok THEN pr.er ELSE <<>>))

MetaFields(m) == [tags |-> [set |-> m.tags], links |-> [set |-> m.links], meta |-> [set |-> m.meta], lookup_ok |-> TRUE]
RECURSIVE PPostings(_, _, _, _, _)
PPostings(cx, b, i, acc, er) ==
  IF i > Len(b) THEN Ok3(i, acc, er)
  ELSE LET r == PPosting(cx, b[i]) IN
       IF ~r.ok THEN Fail
       ELSE LET ml == PMetaLines(cx, b, i + 1, NoMeta)
            IN PPostings(cx, b, ml.p, Append(acc, r.v @@ MetaFields(ml.v)), er \o r.er \o MetaErrs(ml.v))

-----------------------------------------------------------------------------
\* Directives.  A directive is kept as [k |-> "dir", d |-> fields, tags, links, meta (own), date, rank, s, e]
Rank(kind) == IF kind = "open" THEN 0 ELSE IF kind = "balance" THEN 1 ELSE 2
LastTok(b) == b[Len(b)][Len(b[Len(b)])]
Dir(cx, b, kind, fields, m, er) ==
  [ok |-> TRUE, er |-> er \o MetaErrs(m),
   d |-> [k |-> "dir", kind |-> kind, date |-> b[1][1].v, m |-> m,
          s |-> b[1][1].s, e |-> LastTok(b).e, l |-> b[1][1].l,
          f |-> [k |-> kind, et |-> kind, date |-> DateLeaf(cx, b[1][1])] @@ fields]]
\* header parsed up to p with fields; then tags/links to the end of line, then metadata lines to the end of block
Plain(cx, b, kind, p, fields, er) ==
  LET tl == PTagsLinks(cx, b[1], p, NoMeta)
      ml == PMetaLines(cx, b, 2, tl.v)
  IN IF tl.p <= Len(b[1]) \/ ml.p <= Len(b) THEN Fail ELSE Dir(cx, b, kind, fields, ml.v, er)

BookingNames == {"STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"}
BookingCode == [ w \in BookingNames |-> C(w) ]
IsBooking(cs) == \E w \in BookingNames : BookingCode[w] = cs

RECURSIVE CurList(_, _, _)
CurList(ts, p, acc) == IF K(ts, p) = "," /\ K(ts, p + 1) = "cur" THEN CurList(ts, p + 2, Append(acc, ts[p + 1])) ELSE Ok(p, acc)

POpen(cx, b) ==
  LET ts == b[1]
      cl == IF K(ts, 4) = "cur" THEN CurList(ts, 5, <<ts[4]>>) ELSE Ok(4, <<>>)
      curs == [ i \in 1..Len(cl.v) |-> CurLeaf(cx, cl.v[i]) ]
      bk == K(ts, cl.p) = "str"
      q == IF bk THEN cl.p + 1 ELSE cl.p
  IN IF ~IsAcc(cx, ts, 3) \/ (bk /\ ~IsBooking(ts[cl.p].v)) THEN Fail
     ELSE Plain(cx, b, "open", q, [acc |-> AccLeaf(cx, ts[3]), curs |-> [set |-> curs],
                   booking |-> IF bk THEN Some(TokLeaf(cx, ts[cl.p])) ELSE None], GroupErrs(curs))

PBalance(cx, b) ==
  LET ts == b[1]
      a == PAmount(cx, ts, 4)
      n == PNum(cx, ts, 4)
      tol == n.ok /\ K(ts, n.p) = "~" /\ K(ts, n.p + 1) = "num" /\ K(ts, n.p + 2) = "cur"
      q == IF a.ok THEN a.p ELSE n.p + 3
      sp == SpI(cx, ts, 4, q)
      x == ts[n.p + 1]
  IN IF ~IsAcc(cx, ts, 3) \/ ~(a.ok \/ tol) THEN Fail
     ELSE Plain(cx, b, "balance", q,
            [acc |-> AccLeaf(cx, ts[3]),
             atol |-> [sp |-> sp,
                       amt |-> Leaf(IF a.ok THEN a.v ELSE [n |-> NumLeaf(n), c |-> CurLeaf(cx, ts[n.p + 2])], sp),
                       tol |-> IF a.ok THEN None ELSE Some(Leaf(DecOf(FALSE, x.v.m, x.v.s), Sp(cx, x, x)))]],
            n.er)

PPriceDir(cx, b) ==
  LET ts == b[1]
      a == PAmount(cx, ts, 4)
  IN IF K(ts, 3) # "cur" \/ ~a.ok THEN Fail
     ELSE Plain(cx, b, "price", a.p, [cur |-> CurLeaf(cx, ts[3]), amt |-> Leaf(a.v, SpI(cx, ts, 4, a.p))], a.er)

RECURSIVE PValues(_, _, _, _, _)
PValues(cx, ts, p, acc, er) ==
  LET r == PMeta(cx, ts, p)
  IN IF r.ok THEN PValues(cx, ts, r.p, Append(acc, Leaf(r.v, SpI(cx, ts, p, r.p))), er \o r.er) ELSE Ok3(p, acc, er)
PCustom(cx, b) ==
  LET ts == b[1]
      vs == PValues(cx, ts, 4, <<>>, <<>>)
      ml == PMetaLines(cx, b, 2, NoMeta)
  IN IF K(ts, 3) # "str" \/ vs.p <= Len(ts) \/ ml.p <= Len(b) THEN Fail
     ELSE Dir(cx, b, "custom", [type |-> TokLeaf(cx, ts[3]), values |-> vs.v], ml.v, vs.er)

\* strings of a transaction: an empty one counts as absent
StrOpt(cx, x) == IF x.v = <<>> THEN None ELSE Some(TokLeaf(cx, x))
PTransaction(cx, b) ==
  LET ts == b[1]
      n == IF K(ts, 3) = "str" THEN (IF K(ts, 4) = "str" THEN 2 ELSE 1) ELSE 0
      tl == PTagsLinks(cx, ts, 3 + n, NoMeta)
      ml == PMetaLines(cx, b, 2, tl.v)
      ps == PPostings(cx, b, ml.p, <<>>, <<>>)
  IN IF tl.p <= Len(ts) \/ ~ps.ok THEN Fail
     ELSE Dir(cx, b, "transaction",
            [flag |-> Leaf(IF K(ts, 2) = "kw" THEN Str(<<42>>) ELSE FlagOf(ts[2]), Sp(cx, ts[2], ts[2])),
             payee |-> IF n = 2 THEN StrOpt(cx, ts[3]) ELSE None,
             narr |-> IF n = 2 THEN StrOpt(cx, ts[4]) ELSE IF n = 1 THEN StrOpt(cx, ts[3]) ELSE None,
             postings |-> ps.v], ml.v, ps.er)

PDirective(cx, b) ==
  LET ts == b[1]
      kw == IF K(ts, 2) = "kw" THEN ts[2].v ELSE IF IsFlag(ts, 2) THEN "txn" ELSE ""
      x == ts[3]
      y == ts[4]
  IN CASE kw = "txn" -> PTransaction(cx, b)
       [] kw = "open" -> POpen(cx, b)
       [] kw = "balance" -> PBalance(cx, b)
       [] kw = "price" -> PPriceDir(cx, b)
       [] kw = "custom" -> PCustom(cx, b)
       [] kw = "close" -> IF IsAcc(cx, ts, 3) THEN Plain(cx, b, kw, 4, [acc |-> AccLeaf(cx, x)], <<>>) ELSE Fail
       [] kw = "commodity" -> IF K(ts, 3) = "cur" THEN Plain(cx, b, kw, 4, [cur |-> CurLeaf(cx, x)], <<>>) ELSE Fail
       [] kw = "pad" -> IF IsAcc(cx, ts, 3) /\ IsAcc(cx, ts, 4)
                        THEN Plain(cx, b, kw, 5, [acc |-> AccLeaf(cx, x), source |-> AccLeaf(cx, y)], <<>>) ELSE Fail
       [] kw = "document" -> IF IsAcc(cx, ts, 3) /\ K(ts, 4) = "str"
                        THEN Plain(cx, b, kw, 5, [acc |-> AccLeaf(cx, x), path |-> TokLeaf(cx, y)], <<>>) ELSE Fail
       [] kw = "note" -> IF IsAcc(cx, ts, 3) /\ K(ts, 4) = "str"
                        THEN Plain(cx, b, kw, 5, [acc |-> AccLeaf(cx, x), comment |-> TokLeaf(cx, y)], <<>>) ELSE Fail
       [] kw = "event" -> IF K(ts, 3) = "str" /\ K(ts, 4) = "str"
                        THEN Plain(cx, b, kw, 5, [type |-> TokLeaf(cx, x), desc |-> TokLeaf(cx, y)], <<>>) ELSE Fail
       [] kw = "query" -> IF K(ts, 3) = "str" /\ K(ts, 4) = "str"
                        THEN Plain(cx, b, kw, 5, [name |-> TokLeaf(cx, x), content |-> TokLeaf(cx, y)], <<>>) ELSE Fail
       [] OTHER -> Fail

-----------------------------------------------------------------------------
\* Pragmas take one line
Pr(d) == [ok |-> TRUE, er |-> <<>>, d |-> d]
PPragma(cx, b) ==
  LET ts == b[1]
      n == Len(ts)
      kw == ts[1].v
      whole == <<cx.src, ts[1].s, ts[n].e>>
      x == ts[2]
      kv == PKeyValue(cx, ts, 2)
      within(y) == SpR(cx.src, ts[1].s, y.s, y.e, ts[n].e)
  IN IF Len(b) > 1 THEN Fail
     ELSE CASE kw \in {"pushtag", "poptag"} ->
                 IF n = 2 /\ x.k = "tag" THEN Pr([k |-> kw, tag |-> x.v, leaf |-> Leaf(Str(x.v), within(x)), at |-> whole]) ELSE Fail
            [] kw = "pushmeta" ->
                 IF kv.ok /\ kv.p > n
                 THEN [Pr([k |-> kw, key |-> x.v, at |-> whole,
                           kv |-> [k |-> Leaf(kv.v.k.v, within(x)),
                                   val |-> Leaf(kv.v.val.v, SpR(cx.src, ts[1].s, ts[n].e, ts[1].s, ts[n].e))]])
                       EXCEPT !.er = kv.er]
                 ELSE Fail
            [] kw = "popmeta" ->
                 IF n = 3 /\ x.k = "key" /\ ts[3].k = ":" THEN Pr([k |-> kw, key |-> x.v, at |-> whole]) ELSE Fail
            [] kw = "include" ->
                 IF n = 2 /\ x.k = "str" THEN Pr([k |-> kw, path |-> x.v, sp |-> Sp(cx, x, x)]) ELSE Fail
            [] kw = "option" ->
                 IF n = 3 /\ x.k = "str" /\ ts[3].k = "str"
                 THEN Pr([k |-> kw, name |-> x.v, nsp |-> Sp(cx, x, x), val |-> ts[3].v, vsp |-> Sp(cx, ts[3], ts[3])]) ELSE Fail
            [] kw = "plugin" ->
                 IF n \in {2, 3} /\ \A i \in 2..n : ts[i].k = "str"
                 THEN Pr([k |-> kw, p |-> [module |-> TokLeaf(cx, x),
                                           config |-> IF n = 3 THEN Some(TokLeaf(cx, ts[3])) ELSE None]]) ELSE Fail
            [] OTHER -> Fail

PBlock(cx, b) == IF b[1][1].k = "date" THEN PDirective(cx, b)
                 ELSE IF b[1][1].k = "kw" THEN PPragma(cx, b) ELSE Fail
=============================================================================
