------------------------------- MODULE Check -------------------------------
EXTENDS Laws, Json, IOUtils
Scenarios == ndJsonDeserialize(IOEnv.SCENARIOS)
WorldOf(i) == Scenarios[i]
Init == /\ sc \in 1..Len(Scenarios)
        /\ srcs = <<RootSrc(WorldOf(sc))>>
        /\ LedgerInit
Next == LedgerNext
Spec == Init /\ [][Next]_vars
\* for C01: every run ends
FairSpec == Spec /\ WF_vars(Next)
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT("@@" \o W.id \o " " \o ToJson(Expected))
=============================================================================
