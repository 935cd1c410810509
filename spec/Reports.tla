------------------------------ MODULE Reports -------------------------------
(* Errors and warnings made by an application on parsed elements.  A report is  *)
(* made on one element; related and context elements, one or all of a kind at    *)
(* a time, are added to it in any order; it may be annotated at the end.         *)
(* Elements are named by number, <<"all", i>> stands for all of i's kind.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
In == JsonDeserialize(IOEnv.REPORTS)      \* [refs, max, programs]
VARIABLES on, steps, rel, ctx, script
vars == <<on, steps, rel, ctx, script>>
Init == \/ /\ on \in 1..In.refs /\ script = 0
           /\ steps = <<>> /\ rel = <<>> /\ ctx = <<>>
        \/ /\ script \in 1..Len(In.programs)
           /\ on = In.programs[script].on
           /\ steps = <<>> /\ rel = <<>> /\ ctx = <<>>
RelatedTo(i)    == steps' = Append(steps, <<"rel", i>>)    /\ rel' = Append(rel, <<"one", i>>) /\ ctx' = ctx
RelatedToAll(i) == steps' = Append(steps, <<"relall", i>>) /\ rel' = Append(rel, <<"all", i>>) /\ ctx' = ctx
InContext(i)    == steps' = Append(steps, <<"ctx", i>>)    /\ ctx' = Append(ctx, <<"one", i>>) /\ rel' = rel
InContexts(i)   == steps' = Append(steps, <<"ctxall", i>>) /\ ctx' = Append(ctx, <<"all", i>>) /\ rel' = rel
Add(what, i) == \/ what = "rel" /\ RelatedTo(i)
                \/ what = "relall" /\ RelatedToAll(i)
                \/ what = "ctx" /\ InContext(i)
                \/ what = "ctxall" /\ InContexts(i)
Free == /\ script = 0 /\ Len(steps) < In.max
        /\ \E i \in 1..In.refs : \E w \in {"rel", "relall", "ctx", "ctxall"} : Add(w, i)
Follow == /\ script # 0
          /\ LET p == In.programs[script].steps IN Len(steps) < Len(p) /\ Add(p[Len(steps) + 1][1], p[Len(steps) + 1][2])
Next == (Free \/ Follow) /\ UNCHANGED <<on, script>>
Spec == Init /\ [][Next]_vars

\* related elements and contexts keep the order in which they were added, whatever came between
Kinds(S) == SelectSeq(steps, LAMBDA s : s[1] \in S)
LawOrders == /\ Len(rel) = Len(Kinds({"rel", "relall"}))
             /\ \A k \in 1..Len(rel) : rel[k][2] = Kinds({"rel", "relall"})[k][2] /\ (rel[k][1] = "all") = (Kinds({"rel", "relall"})[k][1] = "relall")
             /\ Len(ctx) = Len(Kinds({"ctx", "ctxall"}))
             /\ \A k \in 1..Len(ctx) : ctx[k][2] = Kinds({"ctx", "ctxall"})[k][2]
Done == IF script = 0 THEN TRUE ELSE Len(steps) = Len(In.programs[script].steps)
Emit == Done => PrintT("@@- " \o ToJson([on |-> on, steps |-> steps, rel |-> rel, ctx |-> ctx]))
=============================================================================
