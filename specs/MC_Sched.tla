------------------------------- MODULE MC_Sched --------------------------------
(* Bounded exhaustive exploration of polling and session timers; ghosts state the     *)
(* properties independently of the monitor, which runs along.                          *)
EXTENDS Sched, SchedProps, Json
CONSTANTS MaxOps, MaxQ, MaxNow, MaxTimers, Dump
VARIABLES s, m, ops, hist
vars == <<s, m, ops, hist>>
RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(MStep(mm, evs[i]), evs, i + 1)
Do(op, s1) == /\ ops < MaxOps /\ ops' = ops + 1
              /\ s' = [s1 EXCEPT !.ev = <<>>] /\ m' = Fold(m, s1.ev, 1) /\ hist' = Append(hist, op)
Room == Len(s.q) < MaxQ
ApiStart == Room /\ ~s.dead /\ Do([o |-> "start"], CallStart(s, FALSE))
ApiStop == Room /\ Do([o |-> "stop"], CallStop(s, FALSE))
ApiFreq == \E p \in {1, 3} : Room /\ p # s.per /\ Do([o |-> "freq", per |-> p], CallFreq(s, p, FALSE))
ApiShut == Room /\ ~s.dead /\ (\A i \in DOMAIN s.q : s.q[i].a # "shut") /\ Do([o |-> "sshut"], CallShut(s, FALSE))
Run == s.q # <<>> /\ Do([o |-> "run", n |-> 1], RunOne(s))
Time == \E d \in {1, 2} : s.now + d <= MaxNow /\ Do([o |-> "adv", ms |-> d], Adv(s, d))
Comp == \E o \in s.outs, op \in {"none", "start", "stop", "freq"} : (s.dead => op = "none") /\ Do([o |-> "comp", i |-> o.i, re |-> op], Complete(s, o, op))
Tset == \E d \in {0, 2} : s.ntm < MaxTimers /\ Do([o |-> "tset", d |-> d], TSet(s, d))
Tcan == \E t \in 1 .. s.ntm : Do([o |-> "tcancel", t |-> t], TCancel(s, t))
Query == Do([o |-> "get"], Get(s))
Init == LET s1 == CallSch(S0) IN s = [s1 EXCEPT !.ev = <<>>] /\ m = Fold(MInit, s1.ev, 1) /\ ops = 0 /\ hist = <<>>
Next == ApiStart \/ ApiStop \/ ApiFreq \/ ApiShut \/ Run \/ Time \/ Comp \/ Tset \/ Tcan \/ Query
Spec == Init /\ [][Next]_vars
View == <<s, m>>
Emit == Dump => PrintT("@@" \o ToJson(hist'))
Accepted == m.bad = {}
\* what keeps the running loop alive: a request of its generation in progress, its timer, or its expired timer in the queue
Live == {o \in s.outs : o.g = s.gen}
Alive == Cardinality(Live) + Cardinality(s.tm) + Cardinality({i \in DOMAIN s.q : s.q[i].a = "fire" /\ s.q[i].g = s.gen})
OneLoop == s.run => Alive = 1                                              \* P01
Stop == ~s.run => s.tm = {}                                                \* P02
NoPollWhenStopped == [][s.n' > s.n => s'.run]_vars                         \* P02
===============================================================================
