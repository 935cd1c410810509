----------------------------- MODULE Synthetic ------------------------------
(* Synthetic sources: a store of named texts which only ever grows, and the     *)
(* spans handed out for the fragments added.  Explores every history over       *)
(* In.names and In.fragments up to In.max creations, and the listed histories.  *)
EXTENDS Places, Json, IOUtils, TLC
In == JsonDeserialize(IOEnv.SYNTH)      \* [names (a number of them), fragments, max, real, histories]
VARIABLES store,     \* name -> accumulated text
          order,     \* names in order of first use: the source number is its position
          made,      \* the spans handed out
          script     \* 0, or the number of the listed history being followed
vars == <<store, order, made, script>>

Init == /\ store = [n \in {} |-> <<>>]
        /\ order = <<>>
        /\ made = <<>>
        /\ script \in 0..Len(In.histories)
Have(n) == n \in DOMAIN store
TextOf(n) == IF Have(n) THEN store[n] ELSE <<>>
Create(n, f) ==
  LET old == TextOf(n)
      new == old \o f
      ord == IF Have(n) THEN order ELSE Append(order, n)
  IN /\ store' = [m \in DOMAIN store \cup {n} |-> IF m = n THEN new ELSE store[m]]
     /\ order' = ord
     /\ made' = Append(made, [n |-> n, f |-> f, src |-> SelectInSeq(ord, LAMBDA x : x = n) - 1,
                              s |-> Last(Offsets(old)), e |-> Last(Offsets(new))])
     /\ UNCHANGED script
Free == /\ script = 0
        /\ Len(made) < In.max
        /\ \E n \in 1..In.names : \E i \in 1..Len(In.fragments) : Create(n, In.fragments[i])
Follow == /\ script # 0
          /\ LET h == In.histories[script] IN
             /\ Len(made) < Len(h)
             /\ Create(h[Len(made) + 1].n, h[Len(made) + 1].f)
Next == Free \/ Follow
Spec == Init /\ [][Next]_vars

At(i) == Resolve(store[made[i].n], made[i].s, made[i].e)
Content(i) == SubSeq(store[made[i].n], At(i).from, At(i).to - 1)
\* every span covers the fragment it was made of, without trailing white space
LawFragment == \A i \in 1..Len(made) :
  /\ At(i).ok
  /\ Content(i) = SubSeq(made[i].f, 1, TrimEnd(made[i].f, 1, Len(made[i].f) + 1) - 1)
\* the text of a name is what was added to it, in order
LawStore == \A n \in DOMAIN store :
  store[n] = FoldLeft(LAMBDA acc, m : IF m.n = n THEN acc \o m.f ELSE acc, <<>>, made)
\* source numbers identify names
LawNumbers == \A i, j \in 1..Len(made) : (made[i].src = made[j].src) <=> (made[i].n = made[j].n)
\* nothing that happens later changes what a span resolves to
LawStable == [][\A i \in 1..Len(made) : At(i)' = At(i) /\ made'[i] = made[i]]_vars

Row(i) == LET r == At(i)  t == store[made[i].n] IN
          <<made[i].n, made[i].f, made[i].src, made[i].s, made[i].e, Content(i), r.l1, r.l2, LineOf(t, r.from), ColOf(t, r.from)>>
\* parts of a fragment, in bytes relative to its span
Subs(i) == LET m == made[i]  t == store[m.n]  o == Offsets(m.f)  k == CharAt(t, m.s) - 1 IN
           [ a \in 1..Len(o) |-> [ b \in 1..Len(o) - a + 1 |->
               LET r == ResolveChars(t, k + a, k + a + b - 1)
               IN <<o[a], o[a + b - 1], SubSeq(t, r.from, r.to - 1), r.l1, r.l2>> ] ]
Done == IF script = 0 THEN Len(made) = In.max ELSE Len(made) = Len(In.histories[script])
Emit == Done => PrintT("@@- " \o ToJson([subs |-> [ i \in 1..Len(made) |-> Subs(i) ], h |-> [ i \in 1..Len(made) |-> Row(i) ]]))
=============================================================================
