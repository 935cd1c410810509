-------------------------------- MODULE Laws --------------------------------
(* The listed properties as laws of the specification.  Each is stated from     *)
(* the history of executed declarations, or from the texts, independently of    *)
(* the mechanism by which the state machine of Ledger arrives at its result.    *)
EXTENDS Ledger

Done == phase = "done"
Clean == Done /\ ~MayFail
D(p) == decls[p[1]][p[2]]
H(q) == D(hist[q])

\* ---- C02: sorted by date and rank, stable, and the same directives
LawOrder ==
  Done => LET s == Sorted
              n == Len(s)
              pos == [ i \in 1..n |-> CHOOSE j \in 1..Len(stream) : stream[j].src = s[i].src /\ stream[j].i = s[i].i ]
          IN /\ n = Len(stream)
             /\ { <<s[i].src, s[i].i>> : i \in 1..n } = { <<stream[i].src, stream[i].i>> : i \in 1..n }
             /\ \A i \in 1..n - 1 : LET a == DirOf(s[i])  b == DirOf(s[i + 1]) IN
                  \/ a.date < b.date
                  \/ a.date = b.date /\ Rank(a.kind) < Rank(b.kind)
                  \/ a.date = b.date /\ Rank(a.kind) = Rank(b.kind) /\ pos[i] < pos[i + 1]

\* ---- C03: reachable sources, each expanded once, in place, depth first
IncSet(p) == LET d == D(p)
                 ps_ == Resolve(W, srcs[p[1]].dir, d.path).ps
             IN [ i \in 1..Len(ps_) |-> SrcOf(srcs, Phys(W, ps_[i]).p) ]
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup { j \in 2..Len(srcs) :
                               /\ srcs[j].k # "bad"
                               /\ \E s \in S : \E i \in 1..Len(decls[s]) :
                                     decls[s][i].k = "include" /\ \E x \in 1..Len(IncSet(<<s, i>>)) : IncSet(<<s, i>>)[x] = j }
              IN IF T = S THEN S ELSE Closure(T)
\* the expansion as a recursive function: [seen, out]
RECURSIVE Flat(_, _)
Flat(a, s) ==
  FoldLeft(LAMBDA x, i :
      LET y == [x EXCEPT !.out = Append(@, <<s, i>>)]
      IN IF decls[s][i].k # "include" THEN y
         ELSE LET new == FoldLeft(LAMBDA js, j : IF j > 1 /\ srcs[j].k # "bad" /\ j \notin y.seen /\ \A n \in 1..Len(js) : js[n] # j
                                                THEN Append(js, j) ELSE js, <<>>, IncSet(<<s, i>>))
              \* matches of one pattern are taken last first
              IN FoldRight(LAMBDA j, z : Flat(z, j), new, [y EXCEPT !.seen = @ \cup { new[n] : n \in 1..Len(new) }]),
    a, [ i \in 1..Len(decls[s]) |-> i ])
LawOnce ==
  Done => LET R == Closure({1})
              all == UNION { { <<s, i>> : i \in 1..Len(decls[s]) } : s \in R }
          IN /\ Len(hist) = Cardinality(all) /\ { hist[q] : q \in 1..Len(hist) } = all
             /\ \A i, j \in 1..Len(stream) : i # j => <<stream[i].src, stream[i].i>> # <<stream[j].src, stream[j].i>>
             /\ { <<stream[i].src, stream[i].i>> : i \in 1..Len(stream) } = { p \in all : D(p).k = "dir" }
             /\ hist = Flat([seen |-> {1}, out |-> <<>>], 1).out

\* ---- C04, C05: what is in force before the q-th executed declaration, by counting
Pushes(q, t) == { i \in 1..q - 1 : H(i).k = "pushtag" /\ H(i).tag = t }
Pops(q, t) == { i \in 1..q - 1 : H(i).k = "poptag" /\ H(i).tag = t }
AllTags == { H(q).tag : q \in { i \in 1..Len(hist) : H(i).k \in {"pushtag", "poptag"} } }
TagsAt(q) == { t \in AllTags : Cardinality(Pushes(q, t)) > Cardinality(Pops(q, t)) }
\* a pushmeta at i is outstanding before q when no later popmeta of its key reaches back to it
MetaEv(i, k, key) == H(i).k = k /\ H(i).key = key
Outstanding(i, q) ==
  /\ i < q /\ H(i).k = "pushmeta"
  /\ LET key == H(i).key IN
     \A r \in i + 1..q - 1 : Cardinality({ j \in i + 1..r : MetaEv(j, "popmeta", key) }) <= Cardinality({ j \in i + 1..r : MetaEv(j, "pushmeta", key) })
MetaAt(q) == LET out == { i \in 1..q - 1 : Outstanding(i, q) }
                 ks == { H(i).key : i \in out }
             IN [ k \in ks |-> Max({ i \in out : H(i).key = k }) ]
PosOf(x) == CHOOSE q \in 1..Len(hist) : hist[q] = <<x.src, x.i>>
LawTags ==
  Clean => \A n \in 1..Len(stream) :
             LET x == stream[n]
                 own == { DirOf(x).m.tags[i].v : i \in 1..Len(DirOf(x).m.tags) }
             IN /\ { x.tags[i].v : i \in 1..Len(x.tags) } = own \cup { Str(t) : t \in TagsAt(PosOf(x)) }
                /\ Len(x.tags) = Cardinality({ x.tags[i].v : i \in 1..Len(x.tags) })
LawTagErrors ==      \* success exactly when pushes and pops match up
  Done => LET end == Len(hist) + 1
              under == \E t \in AllTags : \E q \in 1..end : Cardinality(Pops(q, t)) > Cardinality(Pushes(q, t))
          IN (under \/ TagsAt(end) # {}) => MustFail
LawMeta ==
  Clean => \A n \in 1..Len(stream) :
             LET x == stream[n]
                 own == DirOf(x).m.meta
                 at == MetaAt(PosOf(x))
                 ownk == { own[i].k.v : i \in 1..Len(own) }
             IN /\ { x.meta[i].k.v : i \in 1..Len(x.meta) } = ownk \cup { Str(k) : k \in DOMAIN at }
                /\ \A i \in 1..Len(own) : x.meta[i] = own[i]
                /\ \A i \in Len(own) + 1..Len(x.meta) :
                     \E k \in DOMAIN at : Str(k) = x.meta[i].k.v /\ x.meta[i].val = H(at[k]).kv.val
LawMetaErrors ==
  Done => LET end == Len(hist) + 1
              ks == { H(q).key : q \in { i \in 1..Len(hist) : H(i).k \in {"pushmeta", "popmeta"} } }
              n(k, key, q) == Cardinality({ j \in 1..q : MetaEv(j, k, key) })
              under == \E key \in ks : \E q \in 1..Len(hist) : n("popmeta", key, q) > n("pushmeta", key, q)
          IN (under \/ DOMAIN MetaAt(end) # {}) => MustFail

IsIn(p) == Cardinality(DOMAIN p) = 1 /\ "in" \in DOMAIN p      \* somewhere in a pragma
AtSp(e, sp) == Len(e.at) = 1 /\ Cardinality(DOMAIN e.at[1]) = 5 /\ e.at[1] = sp
IsRng(p) == Cardinality(DOMAIN p) = 1 /\ "rng" \in DOMAIN p

\* ---- C07: a file is expanded once; a later include in another context is an error there
Ctx(q) == <<TagsAt(q), LET m == MetaAt(q) IN { <<k, Loose(H(m[k]).kv.val.v)>> : k \in DOMAIN m }>>
LawRepeat ==
  Done /\ ~(\E i \in 1..Len(errs) : IsIn(errs[i].at[1])) =>   \* no unmatched pops or pushes
    \A p, q \in { i \in 1..Len(hist) : H(i).k = "include" } :
      (p < q /\ \E j \in 2..Len(srcs) : /\ srcs[j].k # "bad"
                                        /\ j \in { IncSet(hist[p])[x] : x \in 1..Len(IncSet(hist[p])) }
                                        /\ j \in { IncSet(hist[q])[x] : x \in 1..Len(IncSet(hist[q])) }
                                        /\ \A r \in 1..p - 1 : H(r).k # "include" \/ j \notin { IncSet(hist[r])[x] : x \in 1..Len(IncSet(hist[r])) }
                                        /\ Ctx(p) # Ctx(q))
      => \E e \in 1..Len(errs) : errs[e].n = 1 /\ AtSp(errs[e], H(q).sp)
LawRootAgain ==
  Done => \A q \in 1..Len(hist) : (H(q).k = "include" /\ 1 \in { IncSet(hist[q])[x] : x \in 1..Len(IncSet(hist[q])) })
             => \E e \in 1..Len(errs) : AtSp(errs[e], H(q).sp)

\* ---- C06: an include which refers to nothing readable is an error at its path
LawMissing ==
  Done => \A q \in 1..Len(hist) :
            (H(q).k = "include" /\ (IncSet(hist[q]) = <<>> \/ \E x \in 1..Len(IncSet(hist[q])) :
                                       LET j == IncSet(hist[q])[x] IN j = 0 \/ srcs[j].k = "bad"))
            => \E e \in 1..Len(errs) : AtSp(errs[e], H(q).sp)

\* ---- C08: every option as written, none twice
OptDecls(w) == SelectSeq([ q \in 1..Len(hist) |-> q ], LAMBDA q : H(q).k = "option" /\ H(q).name = OptCode[w])
LawOptions ==
  Clean => /\ \A w \in SingleOptions :
                LET qs == OptDecls(w) IN
                /\ Len(qs) <= 1
                /\ (qs = <<>>) = (opts[w] = None)
                /\ qs # <<>> => opts[w].o[1] = Leaf(OptVal(w, H(qs[1]).val).v, H(qs[1]).vsp)
           /\ \A w \in MultiOptions :
                LET qs == OptDecls(w) IN Len(opts[w]) = Len(qs) /\ Cardinality({ opts[w][i].key : i \in 1..Len(opts[w]) }) = Len(qs)
\* every option of the ledger has a known name
LawOptionNames == Clean => \A q \in 1..Len(hist) : H(q).k = "option" => OptOf(H(q).name) # "unknown" \/ TypeOptOf(H(q).name) # 0

\* ---- C09: an account has the type whose name, as of the time it is read, is its first component
NameDecls == FoldLeft(LAMBDA acc, s : acc \o [ i \in 1..Len(decls[s]) |-> <<s, i>> ], <<>>, [ s \in 1..Len(decls) |-> s ])
NameBefore(n, t) ==     \* the value of the last name option for type t among the first n declarations read
  LET is == { i \in 1..n : LET d == D(NameDecls[i]) IN d.k = "option" /\ d.name = TypeOptions[t] }
  IN IF is = {} THEN DefaultNames[t] ELSE D(NameDecls[Max(is)]).val
LawTypes ==
  Clean => \A n \in 1..Len(NameDecls) :
             LET d == D(NameDecls[n]) IN
             (d.k = "dir" /\ "acc" \in DOMAIN d.f) =>
               LET cs == d.f.acc.v.str
                   t == CHOOSE i \in 1..5 : TypeNames[i] = d.f.acc.at
               IN SubSeq(cs, 1, Find(cs, 1, 58) - 1) = NameBefore(n, t)
LawNamesDistinct == Cardinality({ ps.names[i] : i \in 1..5 }) = 5

\* ---- C10: every expression's value is within half a unit of the last place of its exact value, ties away from zero
\* exact value as [neg, n, d], d = 0 if undefined
RECURSIVE Rat(_)
Rat(x) ==
  IF x.t = "n" THEN [neg |-> FALSE, n |-> x.n.m, d |-> Pow10(x.n.s)]
  ELSE IF x.t = "()" THEN Rat(x.a)
  ELSE IF x.t = "neg" THEN LET a == Rat(x.a) IN [a EXCEPT !.neg = ~a.neg]
  ELSE LET a == Rat(x.a)
           b0 == Rat(x.b)
           b == IF x.t = "-" THEN [b0 EXCEPT !.neg = ~@] ELSE b0
           p == Mul(a.n, b.d)
           q == Mul(b.n, a.d)
       IN CASE x.t = "*" -> [neg |-> a.neg # b.neg, n |-> Mul(a.n, b.n), d |-> Mul(a.d, b.d)]
            [] x.t = "/" -> [neg |-> a.neg # b.neg, n |-> p, d |-> q]
            [] a.neg = b.neg -> [neg |-> a.neg, n |-> Add(p, q), d |-> Mul(a.d, b.d)]
            [] Cmp(p, q) >= 0 -> [neg |-> a.neg, n |-> Minus(p, q), d |-> Mul(a.d, b.d)]
            [] OTHER -> [neg |-> b.neg, n |-> Minus(q, p), d |-> Mul(a.d, b.d)]
AbsDiff(a, b) == IF Cmp(a, b) >= 0 THEN Minus(a, b) ELSE Minus(b, a)
HalfUlp(x) ==
  LET v == Value(x)
      r == Rat(x)
      one == v.any[1]
      cs == one.m.str
      neg == cs # <<>> /\ cs[1] = 45
      m == FromDigits(IF neg THEN Tail(cs) ELSE cs)
      l == Mul(m, r.d)                        \* compare m/10^s with n/d
      e == Mul(r.n, Pow10(one.s))
      twice == Add(AbsDiff(l, e), AbsDiff(l, e))
  IN (v.k = "dec" /\ Len(v.any) = 1) =>
       /\ one.s = ScaleOf(x)
       /\ m # Zero => neg = r.neg
       /\ Cmp(twice, r.d) <= 0
       /\ Cmp(twice, r.d) = 0 => Cmp(l, e) > 0
LawHalfUlp ==
  Done => \A s \in 1..Len(srcs) : srcs[s].k = "bad" \/
            LET bl == Lex(TextOf(W, srcs[s])) IN
            \A b \in 1..Len(bl) : \A j \in 1..Len(bl[b]) : \A p \in 1..Len(bl[b][j]) :
              (p = 1 \/ bl[b][j][p - 1].k \notin {"num", "+", "-", "*", "/", "("}) =>
                LET r == PExpr(bl[b][j], p) IN r.ok => HalfUlp(r.v)

\* ---- C15, C18: blocks do not overlap; directives lie within their blocks; errors point at blocks
LawBlocks ==
  Done => \A s \in 1..Len(blks) :
            /\ \A j \in 1..Len(blks[s]) : blks[s][j].s < blks[s][j].e /\ blks[s][j].l <= blks[s][j].m
            /\ \A j \in 1..Len(blks[s]) - 1 : blks[s][j].e < blks[s][j + 1].s /\ blks[s][j].m < blks[s][j + 1].l
            /\ \A i \in 1..Len(decls[s]) : decls[s][i].k = "dir" =>
                 \E j \in 1..Len(blks[s]) : blks[s][j].ok /\ blks[s][j].s = decls[s][i].s /\ blks[s][j].e = decls[s][i].e
            /\ Len(decls[s]) = Cardinality({ j \in 1..Len(blks[s]) : blks[s][j].ok })
PlaceIn(p, s, b) == IF IsIn(p) THEN p.in[1] = s - 1 /\ b.s <= p.in[2] /\ p.in[3] <= b.e
                    ELSE IF IsRng(p) THEN TRUE
                    ELSE p[1] = s - 1 /\ b.s <= p[2] /\ p[3] <= b.e
LawErrorPlaces ==
  Done => \A e \in 1..Len(errs) : \A k \in 1..Len(errs[e].at) :
            \E s \in 1..Len(blks) : \E j \in 1..Len(blks[s]) : blks[s][j].ok /\ PlaceIn(errs[e].at[k], s, blks[s][j])

\* ---- C22: warnings are distinct and at strings; they do not matter for success
LawWarnings == Done => Cardinality({ warns[i] : i \in 1..Len(warns) }) = Len(warns)

\* ---- C25: plugins in order of execution
LawPlugins == Done => LET qs == SelectSeq([ q \in 1..Len(hist) |-> q ], LAMBDA q : H(q).k = "plugin")
                      IN plugs = [ i \in 1..Len(qs) |-> H(qs[i]).p ]

\* ---- C26: what an error or warning also points at comes before it
LawRelated ==
  Done =>
  /\ \A i \in 1..Len(errs) : "rel" \in DOMAIN errs[i] =>
       \E j, k \in 1..Len(hist) :
         LET x == decls[hist[j][1]][hist[j][2]]
             y == decls[hist[k][1]][hist[k][2]]
             at == errs[i].at[1]
             rel == errs[i].rel[1]
         IN /\ j < k /\ x.k = y.k
            /\ \/ /\ x.k = "option" /\ x.eff = y.eff
                  /\ IF x.eff \in SingleOptions
                     THEN /\ <<x.nsp, y.nsp>> = <<rel, at>>
                          /\ ~\E h \in 1..j - 1 : LET z == decls[hist[h][1]][hist[h][2]] IN z.k = "option" /\ z.eff = x.eff
                     ELSE <<x.vsp, y.vsp>> = <<rel, at>>
               \/ /\ x.k = "include" /\ <<x.sp, y.sp>> = <<rel, at>>
  /\ \A i \in 1..Len(warns) : warns[i][6] # <<>> => warns[i][7] > 0

\* ---- C01: the machine never gets stuck before it is done
LawProgress == phase = "done" \/ ENABLED LedgerNext
=============================================================================
