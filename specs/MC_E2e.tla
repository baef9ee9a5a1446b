--------------------------------- MODULE MC_E2e --------------------------------
(* Bounded exhaustive exploration of the whole: two clients, requests that read and    *)
(* write two registers, connections that fail and timeouts at every point.              *)
EXTENDS E2e, Json
CONSTANTS MaxReq, MaxOps, Dump
VARIABLES s, m, ops, hist, fresh
vars == <<s, m, ops, hist, fresh>>
RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(P!EStep(mm, evs[i]), evs, i + 1)
Take(op, s1) == s' = [s1 EXCEPT !.ev = <<>>] /\ m' = Fold(m, s1.ev, 1) /\ hist' = Append(hist, op)
Env(op, s1) == ops < MaxOps /\ ops' = ops + 1 /\ Take(op, s1) /\ fresh' = TRUE
Own(op, s1) == UNCHANGED <<ops, fresh>> /\ Take(op, s1)
K == Len(s.rq) + 1
Rqs(k) == {[fn |-> 3, a |-> 1, n |-> 2], [fn |-> 16, a |-> 1, vs |-> <<k, k>>], [fn |-> 6, a |-> 2, x |-> 10 + k]}
Submits == K <= MaxReq /\ \E c \in Clients, rq \in Rqs(K) : Env([o |-> "sub", c |-> c, k |-> K, rq |-> rq], Submit(s, c, K, rq))
Cuts == \E n \in DOMAIN s.g : s.g[n].open /\ Env([o |-> "cut"], Cut(s, n))
Times == \E c \in Clients : s.cur[c] # 0 /\ Env([o |-> "tmo"], Timeout(s, c))
Go == [o |-> "go"]
Serves == \E n \in CanServe(s) : Own(Go, Serve(s, n))
Loses == \E n \in CanServe(s) : ~s.g[n].open /\ Own(Go, Lose(s, n))
Lates == s.late # <<>> /\ Own(Go, Late(s))
Delivers == \E n \in CanDeliver(s) : Own(Go, Deliver(s, n))
Snaps == fresh /\ Quiet(s) /\ fresh' = FALSE /\ UNCHANGED ops /\ Take([o |-> "snap"], Snap(s))
Init == /\ s = S0 /\ ops = 0 /\ hist = <<>> /\ fresh = FALSE
        /\ m = Fold(P!EInit, <<[e |-> "add", t |-> "hr", a |-> 1, v |-> 0], [e |-> "add", t |-> "hr", a |-> 2, v |-> 0], [e |-> "faults"]>>, 1)
Next == Submits \/ Cuts \/ Times \/ Serves \/ Loses \/ Lates \/ Delivers \/ Snaps
Spec == Init /\ [][Next]_vars
View == <<s, m, fresh>>
Emit == (Dump /\ ops' = MaxOps /\ hist'[Len(hist')].o = "snap") => PrintT("@@" \o ToJson(hist'))
Accepted == m.bad = {}
\* stated without the monitor
Once == \A k \in DOMAIN s.n : s.n[k] <= 1
Done == \A k \in s.ok : s.n[k] = 1
===============================================================================
