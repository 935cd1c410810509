------------------------------- MODULE Sources -------------------------------
(* The file system of a scenario, and what an include refers to.               *)
(* A path is a sequence of components, each a sequence of code points; all      *)
(* paths are absolute.  A scenario w gives w.files, each                        *)
(*   [p |-> path, k |-> "text" | "bad" | "dir" | "link", t |-> text, to |-> ..] *)
(* and w.base, an existing directory which contains all of them.                *)
EXTENDS Chars

Dot == <<46>>
DotDot == <<46, 46>>
Slash == 47
IsAbs(cs) == cs # <<>> /\ cs[1] = Slash
\* components of a path as written; empty components and "." do not count
Comps(cs) == SelectSeq(Split(cs, Slash), LAMBDA c : c # <<>> /\ c # Dot)
Front1(s) == SubSeq(s, 1, Len(s) - 1)

\* index of the entry at physical path p, 0 if none
EntryAt(w, p) == LET is == { i \in 1..Len(w.files) : w.files[i].p = p }
                 IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
IsDir(w, p) == \/ IsPrefix(p, w.base)
               \/ \E i \in 1..Len(w.files) : \/ w.files[i].p = p /\ w.files[i].k = "dir"
                                             \/ Len(w.files[i].p) > Len(p) /\ IsPrefix(p, w.files[i].p)

\* the physical path denoted by the spelled path, following links: [ok, p]
RECURSIVE Walk(_, _, _, _)
Walk(w, cur, rest, fuel) ==
  IF rest = <<>> THEN [ok |-> IsDir(w, cur) \/ EntryAt(w, cur) # 0, p |-> cur]
  ELSE IF fuel = 0 \/ ~IsDir(w, cur) THEN [ok |-> FALSE, p |-> <<>>]
  ELSE IF Head(rest) = DotDot THEN Walk(w, Front1(cur), Tail(rest), fuel)
  ELSE LET nxt == Append(cur, Head(rest))
           i == EntryAt(w, nxt)
       IN IF i # 0 /\ w.files[i].k = "link"
          THEN Walk(w, IF IsAbs(w.files[i].to) THEN <<>> ELSE cur, Comps(w.files[i].to) \o Tail(rest), fuel - 1)
          ELSE Walk(w, nxt, Tail(rest), fuel)
Phys(w, p) == Walk(w, <<>>, p, 8)
IsDirAt(w, p) == LET r == Phys(w, p) IN r.ok /\ IsDir(w, r.p)
\* is there a directory entry (possibly a dangling link) at spelled path p
EntryExists(w, p) == \/ Phys(w, p).ok
                     \/ p # <<>> /\ LET d == Phys(w, Front1(p)) IN d.ok /\ EntryAt(w, Append(d.p, p[Len(p)])) # 0
\* names in the directory at spelled path p, in order
Children(w, p) ==
  LET r == Phys(w, p)
      n == Len(r.p) + 1
      names == { w.files[i].p[n] : i \in { j \in 1..Len(w.files) : Len(w.files[j].p) >= n /\ IsPrefix(r.p, w.files[j].p) } }
  IN SetToSortSeq(names, Lt)

-----------------------------------------------------------------------------
(* Patterns.  A component is tokenised; "?" any character, "*" any number of    *)
(* them, "[..]" and "[!..]" one (not) in a set, "**" alone any directories.     *)
QM == 63
STAR == 42
LB == 91
RB == 93
HasMeta(c) == \E i \in 1..Len(c) : c[i] \in {QM, STAR, LB}
RECURSIVE Ranges(_, _, _)
Ranges(c, i, j) ==                       \* of c[i..j]
  IF i > j THEN {}
  ELSE IF i + 2 <= j /\ c[i + 1] = 45 THEN {<<c[i], c[i + 2]>>} \cup Ranges(c, i + 3, j)
  ELSE {<<c[i], c[i]>>} \cup Ranges(c, i + 1, j)
PatErr == [ok |-> FALSE, ts |-> <<>>]
RECURSIVE PatFrom(_, _, _)
PatFrom(c, i, acc) ==
  IF i > Len(c) THEN [ok |-> TRUE, ts |-> acc]
  ELSE IF c[i] = QM THEN PatFrom(c, i + 1, Append(acc, [t |-> "?"]))
  ELSE IF c[i] = STAR THEN
    LET j == Span1(c, i, {STAR}) IN
    IF j - i > 2 THEN PatErr
    ELSE IF j - i = 2 THEN (IF Len(c) = 2 THEN [ok |-> TRUE, ts |-> <<[t |-> "**"]>>] ELSE PatErr)
    ELSE PatFrom(c, j, Append(acc, [t |-> "*"]))
  ELSE IF c[i] = LB THEN
    LET neg == i < Len(c) /\ c[i + 1] = 33
        a == IF neg THEN i + 2 ELSE i + 1
        j == Find(c, a + 1, RB)
    IN IF j = 0 THEN PatErr
       ELSE PatFrom(c, j + 1, Append(acc, [t |-> "[", neg |-> neg, rs |-> Ranges(c, a, j - 1)]))
  ELSE PatFrom(c, i + 1, Append(acc, [t |-> "c", c |-> c[i]]))
Pat(c) == PatFrom(c, 1, <<>>)

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(ts, i, s, j) ==
  IF i > Len(ts) THEN j > Len(s)
  ELSE IF ts[i].t = "*" THEN MatchFrom(ts, i + 1, s, j) \/ (j <= Len(s) /\ MatchFrom(ts, i, s, j + 1))
  ELSE /\ j <= Len(s)
       /\ CASE ts[i].t = "?" -> TRUE
            [] ts[i].t = "c" -> ts[i].c = s[j]
            [] OTHER -> ts[i].neg # (\E r \in ts[i].rs : r[1] <= s[j] /\ s[j] <= r[2])
       /\ MatchFrom(ts, i + 1, s, j + 1)
\* a wildcard does not match a leading dot
Matches(c, name) == IF HasMeta(c) THEN name[1] # 46 /\ MatchFrom(Pat(c).ts, 1, name, 1) ELSE c = name

\* spelled paths matching components cs (from i on) below spelled directory p
RECURSIVE GlobFrom(_, _, _, _)
GlobFrom(w, p, cs, i) ==
  IF i > Len(cs) THEN <<p>>
  ELSE IF cs[i] = DotDot THEN (IF IsDirAt(w, p) THEN GlobFrom(w, Append(p, DotDot), cs, i + 1) ELSE <<>>)
  ELSE IF ~HasMeta(cs[i])
  THEN LET q == Append(p, cs[i]) IN IF EntryExists(w, q) THEN GlobFrom(w, q, cs, i + 1) ELSE <<>>
  ELSE IF ~IsDirAt(w, p) THEN <<>>
  ELSE LET names == SelectSeq(Children(w, p), LAMBDA n : n[1] # 46)
           down(n) == LET q == Append(p, n)
                          d == IsDirAt(w, q)
                      IN IF cs[i] = <<STAR, STAR>>
                         THEN (IF i = Len(cs) THEN (IF d THEN <<q>> ELSE <<>>)
                               ELSE IF Matches(cs[i + 1], n) THEN GlobFrom(w, q, cs, i + 2) ELSE <<>>)
                              \o (IF d THEN GlobFrom(w, q, cs, i) ELSE <<>>)
                         ELSE IF Matches(cs[i], n) THEN GlobFrom(w, q, cs, i + 1) ELSE <<>>
       IN FoldLeft(LAMBDA acc, n : acc \o down(n), <<>>, names)

\* what an include of path cs written in a file of directory dir refers to
Resolve(w, dir, cs) ==
  LET cp == Comps(cs) IN
  IF \E i \in 1..Len(cp) : HasMeta(cp[i]) /\ ~Pat(cp[i]).ok THEN [ok |-> FALSE, ps |-> <<>>]
  ELSE [ok |-> TRUE, ps |-> GlobFrom(w, IF IsAbs(cs) THEN <<>> ELSE dir, cp, 1)]

\* lexical form of a spelled path, for display
RECURSIVE Norm(_, _)
Norm(p, acc) == IF p = <<>> THEN acc
                ELSE IF Head(p) = DotDot THEN Norm(Tail(p), Front1(acc)) ELSE Norm(Tail(p), Append(acc, Head(p)))
PathText(p) == FoldLeft(LAMBDA acc, c : acc \o <<Slash>> \o c, <<>>, p)
=============================================================================
