------------------------------ MODULE MC_Client -------------------------------
(* Bounded exhaustive exploration of the client channel's design. The properties   *)
(* are stated on ghost variables (completions, transmissions) independently of the *)
(* operators, and the monitor of ClientProps runs along: it accepts every behaviour *)
(* of the design, and rejects the design's deviations (constant Mut).              *)
EXTENDS Client, ClientProps, Json
CONSTANTS NReq, MaxT, MaxOps, MaxQ, Dump
VARIABLES s, m, n, ops, hist, cnt, txs
vars == <<s, m, n, ops, hist, cnt, txs>>

RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(MStep(mm, evs[i]), evs, i + 1)
Sel(evs, T(_)) == SelectSeq(evs, T)

Step(op, s1) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ s' = [s1 EXCEPT !.ev = <<>>]
    /\ m' = Fold(m, s1.ev, 1)
    /\ hist' = Append(hist, op)
    /\ cnt' = LET ds == Sel(s1.ev, LAMBDA e : e.e = "done") IN
              [k \in DOMAIN cnt |-> cnt[k] + Len(SelectSeq(ds, LAMBDA e : e.k = k))]
    /\ txs' = LET ts == Sel(s1.ev, LAMBDA e : e.e = "tx") IN txs \o [i \in DOMAIN ts |-> At(ts[i].b, 9)]
Ids == (1 .. NReq) \cup {k + 10 : k \in 1 .. NReq}

NewReq(valid, to, re) == LET k == n + 1 IN
    /\ n < NReq /\ n' = k /\ Len(s.q) < MaxQ
    /\ Step([o |-> "sub", s |-> 1, k |-> k, rq |-> Rq(k, valid), to |-> to, re |-> re], SubmitTo(s, k, valid, to, re, FALSE))
Run == s.q # <<>> /\ UNCHANGED n /\ Step([o |-> "run", n |-> 1], RunOne(s))
Adv == s.now < MaxT /\ UNCHANGED n /\ Step([o |-> "adv", ms |-> 1], Advance(s))
Full(k, dt, du) == Frame((s.tids[k] + dt) % 65536, (U + du) % 256, Answer(k))
Ans(k, dt, du) == /\ k \in s.sent /\ s.rest = <<>> /\ UNCHANGED n
                  /\ Step([o |-> "ans", k |-> k, dt |-> dt, du |-> du, pdu |-> Answer(k)], Deliver(s, Full(k, dt, du)))
Half(k) == /\ k \in s.sent /\ s.rest = <<>> /\ UNCHANGED n
           /\ Step([o |-> "ans", k |-> k, dt |-> 0, du |-> 0, pdu |-> Answer(k), hold |-> 8],
                   [Deliver(s, Sub(Full(k, 0, 0), 1, 8)) EXCEPT !.rest = Sub(Full(k, 0, 0), 9, 11)])
Rest == s.rest # <<>> /\ UNCHANGED n /\ Step([o |-> "rest"], Deliver([s EXCEPT !.rest = <<>>], s.rest))
Err == s.sent # {} /\ UNCHANGED n /\ Step([o |-> "err"], Break(s))
Shut == ~s.shut /\ [a |-> "shut"] \notin {s.q[i] : i \in DOMAIN s.q} /\ UNCHANGED n /\ Step([o |-> "shut"], Shutdown(s))

Init == /\ s = S0 /\ m = MInit /\ n = 0 /\ ops = 0 /\ hist = <<>> /\ txs = <<>>
        /\ cnt = [k \in Ids |-> 0]
Next == \/ \E valid \in BOOLEAN, to \in {1, 2}, re \in BOOLEAN : NewReq(valid, to, re) /\ (~valid => to = 1)
        \/ Run \/ Adv \/ Rest \/ Err \/ Shut
        \/ \E k \in s.sent : Ans(k, 0, 0) \/ Ans(k, 1, 0) \/ Ans(k, 0, 1) \/ Half(k)
Spec == Init /\ [][Next]_vars
View == <<s, m, n, cnt, txs>>
Emit == Dump => PrintT("@@" \o ToJson(hist'))

\* ---------------------------------------------------------------- properties

Accepted == m.bad = {}
Once == \A k \in Ids : cnt[k] <= 1                                                           \* C01
OneAtATime == Cardinality({k \in s.sent : cnt[k] = 0}) <= 1 \/ s.shut                         \* C02
SentOnce == \A i, j \in DOMAIN txs : i # j => txs[i] # txs[j]                                 \* C02
InOrder == \A i, j \in DOMAIN txs : i < j => s.tids[txs[i]] < s.tids[txs[j]]                  \* C02
NoneLost == s.q = <<>> /\ ~s.shut => \A k \in DOMAIN s.tids : cnt[k] = 1 \/ k = s.cur \/ (s.cur # 0 /\ k \in {s.pend[i] : i \in DOMAIN s.pend})   \* C01
TimerArmed == s.cur # 0 => \/ \E i \in DOMAIN s.timers : s.timers[i].k = s.cur                \* C04
                           \/ \E i \in DOMAIN s.q : s.q[i].a = "timer" /\ s.q[i].k = s.cur
NoTimerLeft == \A i \in DOMAIN s.timers : s.timers[i].k = s.cur                               \* C04
Silence == [][s.shut => (s'.shut /\ cnt' = cnt /\ txs' = txs)]_vars                           \* C06
\* completing depends only on: an answer carrying the request's identifiers (C03), its timer (C04), a failure (C05)
===============================================================================
