------------------------------- MODULE Spans --------------------------------
(* Resolving spans: every text over an alphabet, up to a length, and listed     *)
(* longer ones, with every pair of offsets.  Every reachable text is emitted    *)
(* with the resolution of every span between two character boundaries; every    *)
(* other span resolves to nothing.                                              *)
EXTENDS Places, Json, IOUtils, TLC
In == JsonDeserialize(IOEnv.SPANS)      \* [alphabet, max, texts]
VARIABLE txt
Init == txt \in {<<>>} \cup { In.texts[i] : i \in 1..Len(In.texts) }
Next == /\ Len(txt) < In.max
        /\ \E i \in 1..Len(In.alphabet) : txt' = Append(txt, In.alphabet[i])
Spec == Init /\ [][Next]_txt

LawSound == LET n == Last(Offsets(txt)) IN
            Len(txt) <= 4 => \A s \in 0..n + 2 : \A e \in 0..n + 2 : SoundResolve(txt, s, e)
\* a span of a text means the same when the text grows at its end
LawPrefix == Len(txt) > 0 /\ Len(txt) <= 4 =>
             LET p == SubSeq(txt, 1, Len(txt) - 1)
                 n == Last(Offsets(p))
             IN \A s \in 0..n : \A e \in s..n : Resolve(p, s, e).ok => Resolve(txt, s, e) = Resolve(p, s, e)
Table == LET o == Offsets(txt) IN
         [ k \in 1..Len(o) |-> [ j \in 1..Len(o) - k + 1 |->
             LET r == ResolveChars(txt, k, k + j - 1) IN <<o[k], o[k + j - 1], r.from, r.to, r.l1, r.l2>> ] ]
Emit == PrintT("@@- " \o ToJson([t |-> txt, a |-> Table]))
=============================================================================
