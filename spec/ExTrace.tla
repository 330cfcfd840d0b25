-------------------------------- MODULE ExTrace --------------------------------
(* Validation of recorded runs of the example programs: one history per run *)
EXTENDS Examples, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, i, ok

Init == k \in 1..Len(Traces) /\ i = 0 /\ ok = TRUE
Next ==
    /\ ok /\ i < Len(Traces[k].ev)
    /\ i' = i + 1 /\ k' = k
    /\ ok' = Allowed(Traces[k].ev[i + 1])
    /\ ok' \/ PrintT(<<"REJECT", Traces[k].id, i + 1>>)
Spec == Init /\ [][Next]_<<k, i, ok>>
View == <<k, i>>
=============================================================================
