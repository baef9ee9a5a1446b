----------------------------- MODULE Trace_Server -----------------------------
EXTENDS ServerProps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, m
Init == sc \in 1 .. Len(Trace) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Trace[sc].ev)
        /\ i' = i + 1 /\ sc' = sc
        /\ m' = MStep(m, Trace[sc].ev[i + 1])
        /\ (m'.bad # {} /\ m.bad = {}) => PrintT("@@" \o ToJson([sc |-> sc, i |-> i + 1, bad |-> m'.bad, why |-> ToString(m)]))
Spec == Init /\ [][Next]_<<sc, i, m>>
===============================================================================
