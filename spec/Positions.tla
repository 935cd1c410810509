----------------------------- MODULE Positions ------------------------------
(* The line and column, and the resolution, of recorded spans of recorded texts. *)
EXTENDS Places, Json, IOUtils, TLC
In == ndJsonDeserialize(IOEnv.POSITIONS)      \* [id, t, q: <<start, end>>]
VARIABLE k
Init == k \in 1..Len(In)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Answer(q) == LET t == In[k].t
                 r == Resolve(t, q[1], q[2])
             IN <<q[1], q[2], LineOf(t, r.from), ColOf(t, r.from), SubSeq(t, r.from, r.to - 1), r.l2>>
LawPosition == \A i \in 1..Len(In[k].q) : Answer(In[k].q[i])[4] >= 1
Emit == PrintT("@@" \o In[k].id \o " " \o ToJson([ i \in 1..Len(In[k].q) |-> Answer(In[k].q[i]) ]))
=============================================================================
