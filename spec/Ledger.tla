------------------------------- MODULE Ledger -------------------------------
(* Reading a ledger: discovery of the included files, reading each of them in   *)
(* the order of discovery, expanding the includes and pragmas in place, and     *)
(* putting the directives in order.                                             *)
EXTENDS Options, Sources

CONSTANT World(_)        \* the scenario denoted by a value of sc: [base, root, inline, files]
VARIABLES
  sc,       \* the scenario
  phase,    \* "read", "expand", "done"
  srcs,     \* sources discovered so far, in order
  queue,    \* includes not yet followed: <<directory, path>>
  nread,    \* how many of the sources have been read
  ps,       \* parser state: account type names, string limit
  decls,    \* declarations of each source read
  blks,     \* extent and well-formedness of each block of each source
  errs,     \* expected errors
  warns,    \* expected warnings
  stack,    \* include expansion: source and position, innermost last
  tags,     \* outstanding pushtags, oldest first
  metas,    \* outstanding pushmetas, oldest first
  ctxs,     \* per source, tags and metas at its first include, if any
  opts, plugs,
  stream,   \* expanded directives, in order of expansion
  hist      \* every declaration executed, as <<source, position>>
vars == <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, stack, tags, metas, ctxs, opts, plugs, stream, hist>>

W == World(sc)
NoDir == << >>

\* files
TextOf(w, s) == IF s.k = "inline" THEN w.inline ELSE w.files[s.f].t
RootSrc(w) == IF w.root = 0 THEN [k |-> "inline", f |-> 0, name |-> <<>>, dir |-> w.base, canon |-> <<>>]
              ELSE LET p == w.files[w.root].p
                       c == Phys(w, p).p
                   IN [k |-> "text", f |-> EntryAt(w, c), name |-> p, dir |-> Front1(p), canon |-> c]

LedgerInit ==
  /\ phase = "read" /\ queue = <<>> /\ nread = 0
  /\ ps = [names |-> DefaultNames, maxl |-> <<>>]
  /\ decls = <<>> /\ blks = <<>> /\ errs = <<>> /\ warns = <<>>
  /\ stack = <<>> /\ tags = <<>> /\ metas = <<>> /\ ctxs = <<>>
  /\ opts = NoOpts /\ plugs = <<>> /\ stream = <<>> /\ hist = <<>>

-----------------------------------------------------------------------------
\* Reading.  The paths following an include keyword, wherever they are
LineIncludes(ts) == FoldLeft(LAMBDA acc, i : IF ts[i].k = "kw" /\ ts[i].v = "include" /\ K(ts, i + 1) = "str"
                                             THEN Append(acc, ts[i + 1].v) ELSE acc, <<>>, [ i \in 1..Len(ts) |-> i ])
BlockIncludes(b) == FoldLeft(LAMBDA acc, ts : acc \o LineIncludes(ts), <<>>, b)

MaxLines(p) == IF p.maxl = <<>> THEN 64 ELSE p.maxl[1].n
Toks(b) == FoldLeft(LAMBDA acc, ts : acc \o ts, <<>>, b)
LongStrings(src, p, b) == LET xs == SelectSeq(Toks(b), LAMBDA x : x.k = "str" /\ Count(x.v, NL) + 1 > MaxLines(p))
                          IN [ i \in 1..Len(xs) |-> <<src, xs[i].s, xs[i].e, xs[i].l, xs[i].m,
                                                         \* the option in force, if any, and the number of lines
                                                         IF p.maxl = <<>> THEN <<>> ELSE <<p.maxl[1].sp>>, Count(xs[i].v, NL) + 1>> ]

(* Where the text is malformed, its meaning beyond the place of the error is    *)
(* not specified: a string which is never closed makes the expectation moot; a  *)
(* malformed block with what looks like a pragma in it has to be reported, but   *)
(* whether the pragma has an effect is left open (soft).                         *)
PragmaLike(ts, i) == /\ ts[i].k = "kw"
                     /\ \/ ts[i].v \in {"pushtag", "poptag"} /\ K(ts, i + 1) = "tag"
                        \/ ts[i].v \in {"pushmeta", "popmeta"} /\ K(ts, i + 1) = "key"
                        \/ ts[i].v \in {"option", "include", "plugin"} /\ K(ts, i + 1) = "str"
Moot(b) == \E j \in 1..Len(b) : \E i \in 1..Len(b[j]) : b[j][i].k = "err" /\ b[j][i].v = <<0>>
Soft(b, ok) == ~ok /\ \E j \in 1..Len(b) : \E i \in 1..Len(b[j]) : PragmaLike(b[j], i)

\* One block read in state a = [ps, ds, bl, er, wa, inc, rec].  After a malformed block (rec) a block is
\* taken into account only if it is free of errors; it then ends the recovery.
ReadBlock(src, a, b) ==
  LET r == PBlock([src |-> src, names |-> a.ps.names], b)
      isOpt == r.ok /\ r.d.k = "option"
      o == OptParse(a.ps, r.d)
      er == IF ~r.ok THEN <<>> ELSE IF isOpt THEN r.er \o o.er ELSE r.er
      hard == \E i \in 1..Len(er) : er[i].n # 0
      ok == r.ok /\ ~(a.rec /\ hard)
      d == IF isOpt THEN r.d @@ [eff |-> o.eff, ov |-> o.v] ELSE r.d
      here == [moot |-> Moot(b), soft |-> Soft(b, ok) \/ (a.rec /\ er # <<>> /\ ~hard),
               s |-> b[1][1].s, e |-> LastTok(b).e, ok |-> ok, l |-> b[1][1].l, m |-> LastTok(b).m]
  IN [ps |-> IF isOpt /\ ok THEN o.ps ELSE a.ps,
      ds |-> IF ok THEN Append(a.ds, d) ELSE a.ds,
      bl |-> Append(a.bl, here),
      er |-> IF ok THEN a.er \o er ELSE a.er,
      wa |-> IF ok THEN a.wa \o LongStrings(src, a.ps, b) ELSE a.wa,
      inc |-> a.inc \o BlockIncludes(b),
      rec |-> ~ok]

Read ==
  /\ phase = "read" /\ nread < Len(srcs)
  /\ LET i == nread + 1
         s == srcs[i]
         st0 == [ps |-> ps, ds |-> <<>>, bl |-> <<>>, er |-> <<>>, wa |-> <<>>, inc |-> <<>>, rec |-> FALSE]
         st == IF s.k = "bad" THEN st0
               ELSE FoldLeft(LAMBDA a, b : ReadBlock(i - 1, a, b), st0, Lex(TextOf(W, s)))
     IN /\ ps' = st.ps
        /\ decls' = Append(decls, st.ds)
        /\ blks' = Append(blks, st.bl)
        /\ errs' = errs \o st.er
        /\ warns' = warns \o st.wa
        /\ queue' = queue \o [ j \in 1..Len(st.inc) |-> <<s.dir, st.inc[j]>> ]
  /\ nread' = nread + 1
  /\ ctxs' = Append(ctxs, <<>>)
  /\ UNCHANGED <<sc, phase, srcs, stack, tags, metas, opts, plugs, stream, hist>>

\* Discovery: a file is a new source unless it is already one, however it is spelled
SrcOf(ss, c) == LET is == { i \in 1..Len(ss) : ss[i].k # "inline" /\ ss[i].canon = c } IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
AddSrc(w, ss, p) ==
  LET r == Phys(w, p)
      f == EntryAt(w, r.p)
  IN IF ~r.ok \/ SrcOf(ss, r.p) # 0 THEN ss
     ELSE Append(ss, [k |-> IF IsDir(w, r.p) \/ w.files[f].k # "text" THEN "bad" ELSE "text",
                      f |-> f, name |-> p, dir |-> Front1(p), canon |-> r.p])
Discover ==
  /\ phase = "read" /\ nread = Len(srcs) /\ queue # <<>>
  /\ LET w == W IN srcs' = FoldLeft(LAMBDA ss, p : AddSrc(w, ss, p), srcs, Resolve(w, queue[1][1], queue[1][2]).ps)
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<sc, phase, nread, ps, decls, blks, errs, warns, stack, tags, metas, ctxs, opts, plugs, stream, hist>>

StartExpand ==
  /\ phase = "read" /\ nread = Len(srcs) /\ queue = <<>>
  /\ phase' = "expand"
  /\ stack' = << <<1, 1>> >>
  /\ UNCHANGED <<sc, srcs, queue, nread, ps, decls, blks, errs, warns, tags, metas, ctxs, opts, plugs, stream, hist>>

-----------------------------------------------------------------------------
\* Expansion
Top == stack[Len(stack)]
Cur == decls[Top[1]][Top[2]]
HasCur == phase = "expand" /\ stack # <<>> /\ Top[2] <= Len(decls[Top[1]])
Advanced == [stack EXCEPT ![Len(stack)] = <<Top[1], Top[2] + 1>>]
Exec(k) == /\ HasCur /\ Cur.k = k
           /\ hist' = Append(hist, Top)
Step == stack' = Advanced

\* index of the last element of s satisfying P, 0 if none
LastIdx(s, P(_)) == LET is == { i \in 1..Len(s) : P(s[i]) } IN IF is = {} THEN 0 ELSE Max(is)

\* pushed tags and metadata in force: each tag once, the innermost value of each key;
\* they are located at the most recent outstanding pragma
TagsInForce == LET vs == { tags[i].tag : i \in 1..Len(tags) }
               IN SetToSeq({ [v |-> Str(t), sp |-> [anyof |-> <<tags[LastIdx(tags, LAMBDA x : x.tag = t)].at>>]] : t \in vs })
MetasInForce == LET ks == { metas[i].key : i \in 1..Len(metas) }
                    top(k) == metas[LastIdx(metas, LAMBDA x : x.key = k)]
                IN SetToSeq({ [k |-> Leaf(Str(k), [anyof |-> <<top(k).at>>]),
                               val |-> top(k).kv.val] : k \in ks })

ExecDirective ==
  /\ Exec("dir") /\ Step
  /\ LET d == Cur
         own == { d.m.tags[i].v : i \in 1..Len(d.m.tags) }
         ownk == { d.m.meta[i].k.v : i \in 1..Len(d.m.meta) }
         ts == d.m.tags \o SelectSeq(TagsInForce, LAMBDA x : x.v \notin own)
         ms == d.m.meta \o SelectSeq(MetasInForce, LAMBDA x : x.k.v \notin ownk)
     IN stream' = Append(stream, [src |-> Top[1], i |-> Top[2], tags |-> ts, meta |-> ms])
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, tags, metas, ctxs, opts, plugs>>

ExecPushtag ==
  /\ Exec("pushtag") /\ Step
  /\ tags' = Append(tags, [tag |-> Cur.tag, at |-> Cur.at])
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, metas, ctxs, opts, plugs, stream>>
ExecPoptag ==
  /\ Exec("poptag") /\ Step
  /\ LET t == Cur.tag
         i == LastIdx(tags, LAMBDA x : x.tag = t)
     IN IF i = 0 THEN tags' = tags /\ errs' = Append(errs, ErrAt(<<[in |-> Cur.at]>>, 1))
        ELSE tags' = RemoveAt(tags, i) /\ errs' = errs
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, warns, metas, ctxs, opts, plugs, stream>>
ExecPushmeta ==
  /\ Exec("pushmeta") /\ Step
  /\ metas' = Append(metas, [key |-> Cur.key, at |-> Cur.at, kv |-> Cur.kv])
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, tags, ctxs, opts, plugs, stream>>
ExecPopmeta ==
  /\ Exec("popmeta") /\ Step
  /\ LET k == Cur.key
         i == LastIdx(metas, LAMBDA x : x.key = k)
     IN IF i = 0 THEN metas' = metas /\ errs' = Append(errs, ErrAt(<<[in |-> Cur.at]>>, 1))
        ELSE metas' = RemoveAt(metas, i) /\ errs' = errs
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, warns, tags, ctxs, opts, plugs, stream>>
ExecPlugin ==
  /\ Exec("plugin") /\ Step
  /\ plugs' = Append(plugs, Cur.p)
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, tags, metas, ctxs, opts, stream>>
ExecOption ==
  /\ Exec("option") /\ Step
  /\ LET s == srcs[Top[1]]
         dir == IF s.k = "inline" THEN <<>> ELSE IF IsAbs(Cur.val) THEN <<>> ELSE Append(PathText(s.dir), Slash)
         o == OptExec(opts, Cur.eff, Cur.ov, Cur, dir)
     IN opts' = o.os /\ errs' = errs \o o.er
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, warns, tags, metas, ctxs, plugs, stream>>

\* a metadata value without locations
Bare(v) == IF v.t = "amt" THEN ToString(<<v.v.n.v, v.v.c.v>>) ELSE ToString(v)
\* the same by value only: whether 1.0 and 1, or 1+1 and 2, are equal contexts is left open
RECURSIVE Unscaled(_, _)
Unscaled(m, k) == IF k = 0 \/ m = <<48>> THEN <<m, 0>> ELSE IF m[Len(m)] = 48 THEN Unscaled(SubSeq(m, 1, Len(m) - 1), k - 1) ELSE <<m, k>>
LooseNum(n) == IF n.v.any = <<>> THEN <<>> ELSE Unscaled(n.v.any[1].m.str, n.v.any[1].s)
Loose(v) == IF v.t = "amt" THEN ToString(<<LooseNum(v.v.n.v), v.v.c.v>>) ELSE IF v.t = "num" THEN ToString(LooseNum(v.v)) ELSE ToString(v)
\* context of an include: what is in force; ctxStrict also tells how often and what is hidden
Visible(t, m) == <<{ t[i].tag : i \in 1..Len(t) },
                   { <<m[i].key, Loose(m[LastIdx(m, LAMBDA x : x.key = m[i].key)].kv.val.v)>> : i \in 1..Len(m) }>>
Strict(t, m) == << { <<t[i].tag, Cardinality({ j \in 1..Len(t) : t[j].tag = t[i].tag })>> : i \in 1..Len(t) },
                   { <<m[i].key, FoldLeft(LAMBDA acc, x : IF x.key = m[i].key THEN Append(acc, Bare(x.kv.val.v)) ELSE acc, <<>>, m)>> : i \in 1..Len(m) }>>
\* one matching file p of the include at span sp, in a = [st, cx, er]
IncludeOne(w, sp, a, p) ==
  LET r == Phys(w, p)
      i == SrcOf(srcs, r.p)
      bad == [a EXCEPT !.er = Append(@, ErrAt(<<sp>>, 1))]
  IN IF ~r.ok \/ i = 0 THEN bad                               \* dangling
     ELSE IF srcs[i].k = "bad" \/ i = 1 THEN bad              \* unreadable, or the root
     ELSE IF a.cx[i] = <<>> THEN [a EXCEPT !.cx[i] = <<[t |-> tags, m |-> metas, sp |-> sp]>>, !.st = Append(@, <<i, 1>>)]
     ELSE LET c == a.cx[i][1] IN
          IF Visible(c.t, c.m) # Visible(tags, metas) THEN [a EXCEPT !.er = Append(@, ErrRel(<<sp>>, 1, <<c.sp>>))]
          ELSE IF Strict(c.t, c.m) # Strict(tags, metas) THEN [a EXCEPT !.er = Append(@, ErrAt(<<sp>>, 0))]
          ELSE a
ExecInclude ==
  /\ Exec("include")
  /\ LET w == W
         sp == Cur.sp
         r == Resolve(w, srcs[Top[1]].dir, Cur.path)
         a0 == [st |-> Advanced, cx |-> ctxs, er |-> errs]
         a == IF r.ps = <<>> THEN [a0 EXCEPT !.er = Append(@, ErrAt(<<sp>>, 1))]
              ELSE FoldLeft(LAMBDA x, p : IncludeOne(w, sp, x, p), a0, r.ps)
     IN stack' = a.st /\ ctxs' = a.cx /\ errs' = a.er
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, warns, tags, metas, opts, plugs, stream>>

Return ==
  /\ phase = "expand" /\ stack # <<>> /\ ~HasCur
  /\ stack' = Front1(stack)
  /\ UNCHANGED <<sc, phase, srcs, queue, nread, ps, decls, blks, errs, warns, tags, metas, ctxs, opts, plugs, stream, hist>>

\* what is left pushed at the end is an error: one per pushtag, at least one per key
Leftover ==
  [ i \in 1..Len(tags) |-> ErrAt(<<[in |-> tags[i].at]>>, 1) ]
  \o SetToSeq({ [at |-> FoldLeft(LAMBDA acc, x : IF x.key = k THEN Append(acc, [in |-> x.at]) ELSE acc, <<>>, metas), n |-> -1]
                : k \in { metas[i].key : i \in 1..Len(metas) } })
Finish ==
  /\ phase = "expand" /\ stack = <<>>
  /\ phase' = "done"
  /\ errs' = errs \o Leftover
  /\ UNCHANGED <<sc, srcs, queue, nread, ps, decls, blks, warns, stack, tags, metas, ctxs, opts, plugs, stream, hist>>

\* the machine is deterministic: these tell apart the states of one behaviour
View == <<sc, phase, nread, Len(queue), Len(hist), Len(stack)>>
LedgerNext == \/ Read \/ Discover \/ StartExpand \/ ExecDirective \/ ExecPushtag \/ ExecPoptag \/ ExecPushmeta \/ ExecPopmeta
              \/ ExecPlugin \/ ExecOption \/ ExecInclude \/ Return \/ Finish

-----------------------------------------------------------------------------
\* The result
DirOf(x) == decls[x.src][x.i]
KeyOf(x) == DirOf(x).date * 10 + Rank(DirOf(x).kind)
\* stable insertion by key
RECURSIVE InsertStable(_, _)
InsertStable(s, x) == IF s = <<>> THEN <<x>>
                      ELSE IF KeyOf(s[Len(s)]) <= KeyOf(x) THEN Append(s, x)
                      ELSE Append(InsertStable(Front1(s), x), s[Len(s)])
Sorted == FoldLeft(InsertStable, <<>>, stream)

BlockAt(src, s) == CHOOSE j \in 1..Len(blks[src]) : blks[src][j].s = s
\* a directive's extent ends after its last token and before the next block
DirSpan(x) == LET d == DirOf(x)
                  j == BlockAt(x.src, d.s)
                  nxt == IF j < Len(blks[x.src]) THEN blks[x.src][j + 1].s ELSE -1
              IN [dir |-> <<x.src - 1, d.s, d.e, nxt, d.l>>]
DirJson(x) == DirOf(x).f @@ [sp |-> DirSpan(x), tags |-> [set |-> x.tags], links |-> [set |-> DirOf(x).m.links],
                             meta |-> [set |-> x.meta], lookup_ok |-> TRUE]
MustFail == \/ \E i \in 1..Len(errs) : errs[i].n # 0
            \/ \E i \in 1..Len(blks) : \E j \in 1..Len(blks[i]) : ~blks[i][j].ok
MayFail == MustFail \/ errs # <<>>
Expected ==
  [moot |-> \E i \in 1..Len(blks) : \E j \in 1..Len(blks[i]) : blks[i][j].moot \/ blks[i][j].soft,
   soft |-> \A i \in 1..Len(blks) : \A j \in 1..Len(blks[i]) : ~blks[i][j].moot,
   ok |-> IF MustFail THEN "no" ELSE IF MayFail THEN "any" ELSE "yes",
   dirs |-> IF MustFail THEN <<>> ELSE LET ds == Sorted IN [ i \in 1..Len(ds) |-> DirJson(ds[i]) ],
   opts |-> IF MustFail THEN <<>> ELSE OptsJson(opts, ps),
   plugins |-> plugs, warnings |-> warns, errors |-> errs, blocks |-> blks,
   srcs |-> [ i \in 1..Len(srcs) |-> [k |-> srcs[i].k, name |-> Str(PathText(srcs[i].name))] ]]
=============================================================================
