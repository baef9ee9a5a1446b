----------------------------- MODULE Trace_DbLin ------------------------------
EXTENDS DbLin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, m
Init == sc \in 1 .. Len(Trace) /\ i = 0 /\ m = LInit
Next == /\ i < Len(Trace[sc].ev)
        /\ i' = i + 1 /\ sc' = sc
        /\ m' = LStep(m, Trace[sc].ev[i + 1])
        /\ (m'.bad # {} /\ m.bad = {}) =>
              PrintT("@@" \o ToJson([sc |-> sc, i |-> i + 1, bad |-> m'.bad, why |-> "no order of the operations explains the history up to here"]))
Spec == Init /\ [][Next]_<<sc, i, m>>
===============================================================================
