-------------------------------- MODULE Sched ----------------------------------
(* Design of one scheduled request and one session timer: API calls post actions to   *)
(* a FIFO executor; a poll belongs to the loop (generation) that sent it, and only     *)
(* the completion of a poll of the running loop arms the timer for the next one.       *)
(* An expired timer first joins the FIFO, where cancelling no longer reaches it.       *)
EXTENDS Codec, Integers, TLC
CONSTANT Mut
RQ == [fn |-> 3, a |-> 1, n |-> 1]
S0 == [now |-> 0, q |-> <<>>, run |-> FALSE, gen |-> 0, per |-> 2, per0 |-> 2, tm |-> {}, outs |-> {}, n |-> 0, ntm |-> 0, ut |-> {}, dead |-> FALSE, ev |-> <<>>]
E(s, e) == [s EXCEPT !.ev = Append(@, e)]
Ret(s, nested) == E(s, [e |-> "ret", q |-> IF nested THEN -1 ELSE Len(s.q)])
Post(s, a) == [s EXCEPT !.q = Append(@, a)]
Call(s, a, ev, nested) == Ret(Post(E(s, ev), a), nested)
CallSch(s) == Call(s, [a |-> "start"], [e |-> "sch", k |-> 1, s |-> 1, u |-> 17, rq |-> RQ, to |-> 100, per |-> s.per], FALSE)
CallStart(s, ne) == Call(s, [a |-> "start"], [e |-> "start", k |-> 1], ne)
CallStop(s, ne) == Call(s, [a |-> "stop"], [e |-> "stop", k |-> 1], ne)
CallFreq(s, p, ne) == Call(s, [a |-> "freq", per |-> p], [e |-> "freq", k |-> 1, per |-> p], ne)
CallShut(s, ne) == Call(s, [a |-> "shut"], [e |-> "sshut", s |-> 1], ne)
Get(s) == E(s, [e |-> "get", k |-> 1, run |-> IF s.run THEN 1 ELSE 0, per |-> s.per])

Send(s) == E([s EXCEPT !.n = @ + 1, !.outs = @ \cup {[i |-> s.n + 1, g |-> s.gen]}], [e |-> "snd", k |-> 1, i |-> s.n + 1, u |-> 17, to |-> 100, b |-> RequestBytes(RQ)])
Act(s, a) ==
    CASE a.a = "start" -> IF s.run THEN s ELSE Send([s EXCEPT !.run = TRUE, !.gen = @ + 1])
      [] a.a = "stop" -> [s EXCEPT !.run = FALSE, !.tm = IF Mut = "nocancel" THEN @ ELSE {}]
      [] a.a = "freq" -> [s EXCEPT !.per = a.per, !.tm = IF Mut = "freqnow" THEN {[t EXCEPT !.at = s.now + a.per] : t \in @} ELSE @]
      [] a.a = "shut" -> Post([s EXCEPT !.dead = TRUE], [a |-> "stop"])
      [] a.a = "fire" -> IF Mut \in {"stray", "nocancel"} \/ (s.run /\ a.g = s.gen) THEN Send(s) ELSE s
      [] a.a = "user" -> E(s, [e |-> "tfire", t |-> a.t])
Due(s) == {t \in s.tm \cup s.ut : t.at <= s.now}
RECURSIVE Expire(_)
Expire(s) == IF Due(s) = {} THEN s
             ELSE LET t == CHOOSE t \in Due(s) : \A x \in Due(s) : t.at <= x.at
                  IN  Expire([s EXCEPT !.tm = @ \ {t}, !.ut = @ \ {t}, !.q = Append(@, IF "g" \in DOMAIN t THEN [a |-> "fire", g |-> t.g] ELSE [a |-> "user", t |-> t.t])])
RunOne(s) == LET s1 == Expire(Act(E([s EXCEPT !.q = Tail(@)], [e |-> "run"]), Head(s.q))) IN E(s1, [e |-> "ran", q |-> Len(s1.q)])
Adv(s, d) == LET s1 == Expire([s EXCEPT !.now = @ + d]) IN E(s1, [e |-> "adv", now |-> s1.now, q |-> Len(s1.q)])
\* the completion of o; op is what the handler calls
Complete(s, o, op) ==
    LET s1 == E(E([s EXCEPT !.outs = @ \ {o}], [e |-> "comp", i |-> o.i, r |-> [k |-> "tmo"]]), [e |-> "done", k |-> 1, r |-> [k |-> "tmo"]])
        s2 == CASE op = "none" -> s1 [] op = "start" -> CallStart(s1, TRUE) [] op = "stop" -> CallStop(s1, TRUE) [] op = "freq" -> CallFreq(s1, 5, TRUE)
        arm == s2.run /\ (o.g = s2.gen \/ Mut = "twoloops")
        per == IF Mut = "oldfreq" THEN s2.per0 ELSE s2.per
        s3 == Expire(IF arm THEN [s2 EXCEPT !.tm = @ \cup {[at |-> s2.now + per, g |-> s2.gen]}] ELSE s2)
    IN  E(s3, [e |-> "compend", q |-> Len(s3.q)])
TSet(s, d) == LET s1 == Expire(E([s EXCEPT !.ntm = @ + 1, !.ut = @ \cup {[at |-> s.now + d, t |-> s.ntm + 1]}], [e |-> "tset", t |-> s.ntm + 1, at |-> s.now + d])) IN Ret(s1, FALSE)
TCancel(s, t) == Ret(E([s EXCEPT !.ut = IF Mut = "keeptimer" THEN @ ELSE {x \in @ : x.t # t}], [e |-> "tcancel", t |-> t]), FALSE)
===============================================================================
