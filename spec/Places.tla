------------------------------- MODULE Places -------------------------------
(* Places in a text: byte spans, the characters they cover, line numbers and    *)
(* columns.                                                                     *)
EXTENDS Chars

\* 0 if the byte offset b lies inside a character of the text or behind its end
CharAt(t, b) == LET o == Offsets(t)
                    n == SelectInSeq(o, LAMBDA x : x = b)
                IN n
\* the characters s..e-1 of the text without trailing white space; a text of nothing but white space stands as it is
RECURSIVE Back(_, _, _)
Back(t, s, e) == IF e <= s THEN 0 ELSE IF IsSpace(t[e - 1]) THEN Back(t, s, e - 1) ELSE e
TrimEnd(t, s, e) == LET b == Back(t, s, e) IN IF b = 0 THEN e ELSE b
LinesIn(t, s, e) == Count(SubSeq(t, s, e - 1), NL)

Nowhere == [ok |-> FALSE, from |-> 1, to |-> 1, l1 |-> 1, l2 |-> 1]
\* resolving bytes s..e of text t: the characters from..to-1, on lines l1..l2
ResolveChars(t, s, e) ==
  LET to == TrimEnd(t, s, e)
      l1 == 1 + LinesIn(t, 1, s)
  IN [ok |-> TRUE, from |-> s, to |-> to, l1 |-> l1, l2 |-> l1 + LinesIn(t, s, to)]
Resolve(t, sb, eb) ==
  LET s == CharAt(t, sb)  e == CharAt(t, eb)
  IN IF s = 0 \/ e = 0 \/ sb > eb THEN Nowhere ELSE ResolveChars(t, s, e)

\* what a reader expects of a resolved span, said without reference to how it is computed
SoundResolve(t, sb, eb) ==
  LET r == Resolve(t, sb, eb)
      o == Offsets(t)
      content == SubSeq(t, r.from, r.to - 1)
  IN r.ok =>
      /\ o[r.from] = sb /\ o[r.to] <= eb
      /\ \A i \in 1..Len(t) : (o[i] >= o[r.to] /\ o[i] < eb) => IsSpace(t[i])
      /\ content # <<>> => (IsSpace(Last(content)) => \A i \in 1..Len(content) : IsSpace(content[i]))
      /\ r.l1 = 1 + Cardinality({i \in 1..Len(t) : t[i] = NL /\ o[i] < sb})
      /\ r.l2 - r.l1 = Cardinality({i \in 1..Len(content) : content[i] = NL})

\* line and column, both counted from 1, of the character with index i
RECURSIVE LineStart(_, _)
LineStart(t, i) == IF i = 1 \/ t[i - 1] = NL THEN i ELSE LineStart(t, i - 1)
LineOf(t, i) == 1 + LinesIn(t, 1, i)
ColOf(t, i) == i - LineStart(t, i) + 1
=============================================================================
