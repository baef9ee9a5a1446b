------------------------------- MODULE Trace_Db -------------------------------
(* Validates recorded database histories: IOEnv.TRACE holds one history a line.  *)
EXTENDS DbProps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, i, m
Init == sc \in 1 .. Len(Trace) /\ i = 0 /\ m = MInit
Next == /\ i < Len(Trace[sc].ev)
        /\ i' = i + 1 /\ sc' = sc
        /\ m' = MStep(m, Trace[sc].ev[i + 1])
        /\ (m'.bad # {} /\ m.bad = {}) =>
              PrintT("@@" \o ToJson([sc |-> sc, i |-> i + 1, bad |-> m'.bad,
                 why |-> IF Trace[sc].ev[i + 1].e \in {"crash", "hang"} THEN "died" ELSE ToString(Expected(m.db, Trace[sc].ev[i + 1]))]))
Spec == Init /\ [][Next]_<<sc, i, m>>
===============================================================================
