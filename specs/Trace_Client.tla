----------------------------- MODULE Trace_Client -----------------------------
(* Validates recorded behaviours of client channels: IOEnv.TRACE, one a line.    *)
EXTENDS ClientProps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, m
Init == sc \in 1 .. Len(Trace) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Trace[sc].ev)
        /\ i' = i + 1 /\ sc' = sc
        /\ m' = MStep(m, Trace[sc].ev[i + 1])
        /\ (m'.bad # {} /\ m.bad = {}) =>
              PrintT("@@" \o ToJson([sc |-> sc, i |-> i + 1, bad |-> m'.bad,
                 why |-> ToString([now |-> m.now, out |-> m.out, waiting |-> Live(m), silent |-> m.silent, shut |-> m.shut])]))
Spec == Init /\ [][Next]_<<sc, i, m>>
===============================================================================
