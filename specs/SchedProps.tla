------------------------------ MODULE SchedProps -------------------------------
(* What a user may observe of scheduled requests (polls) and session timers, over     *)
(* a channel that completes their requests. Between the call and its effect an         *)
(* operation is pending; what has taken effect is not visible, so the monitor keeps    *)
(* for every poll the set of all hidden states that explain what was observed.         *)
(*   sch k s u rq to per, start k, stop k, freq k per, sshut s   calls; ret q          *)
(*   get k run per           answers of is_running and get_frequency                   *)
(*   run / ran q             one queued action runs; q remain (-1: nested)             *)
(*   adv now q               virtual time passes                                       *)
(*   snd k i u to b          the i-th request handed to the channel; k from its bytes  *)
(*   comp i r / compend q    the channel completes it with r;  done k r  the handler   *)
(*   tset t at, tcancel t, tfire t, texp t v         timers of the session             *)
EXTENDS Codec, Integers, TLC

MInit == [now |-> 0, polls |-> <<>>, H |-> <<>>, snds |-> <<>>, calls |-> 0, run |-> FALSE, cur |-> [i |-> 0, res |-> Mal, seen |-> 0],
          tms |-> <<>>, ctl |-> FALSE, bad |-> {}]
Ext(f, k, v) == (k :> v) @@ f
Bad(m, p) == [m EXCEPT !.bad = @ \cup p]
Polls(m) == {"P01"} \cup (IF m.ctl THEN {"P02"} ELSE {})

\* a hidden state: run; per; wait = time of the next poll or -1; want = a request is due now; cur = request in progress of the
\* loop that runs; old = the latest request that was in progress when its loop was stopped; pend = operations not effective yet
H0(per) == [run |-> FALSE, per |-> per, wait |-> -1, want |-> FALSE, cur |-> 0, old |-> 0, pend |-> << [a |-> "start"] >>, kill |-> FALSE]
Stopped(h) == [h EXCEPT !.run = FALSE, !.wait = -1, !.cur = 0, !.old = IF h.cur # 0 THEN h.cur ELSE @]
Effect(h, o) ==
    CASE o.a = "start" -> IF h.run THEN {h}
                          ELSE {[h EXCEPT !.run = TRUE, !.want = TRUE]} \cup (IF h.old # 0 THEN {[h EXCEPT !.run = TRUE, !.cur = h.old]} ELSE {})
      [] o.a = "stop" -> {IF h.run THEN Stopped(h) ELSE h}
      [] o.a = "freq" -> {[h EXCEPT !.per = o.per]}
      [] o.a = "kill" -> {[h EXCEPT !.kill = TRUE]}
\* the states reachable inside running actions, without a request being sent
Step1(h, now) ==
    IF h.want THEN {}
    ELSE (IF h.pend # <<>> THEN Effect([h EXCEPT !.pend = Tail(@)], Head(h.pend)) ELSE {})
         \cup (IF h.kill THEN {[(IF h.run THEN Stopped(h) ELSE h) EXCEPT !.kill = FALSE]} ELSE {})
         \cup (IF h.run /\ h.wait # -1 /\ h.wait <= now THEN {[h EXCEPT !.wait = -1, !.want = TRUE]} ELSE {})
RECURSIVE Close(_, _)
Close(S, now) == LET N == S \cup UNION {Step1(h, now) : h \in S} IN IF N = S THEN S ELSE Close(N, now)
Calm(h, now) == h.pend = <<>> /\ ~h.kill /\ ~h.want /\ ~(h.run /\ h.wait # -1 /\ h.wait <= now)

Map(m, F(_)) == [k \in DOMAIN m.H |-> F(m.H[k])]
BeginRun(m) == LET C(S) == Close(S, m.now) IN [m EXCEPT !.run = TRUE, !.H = Map(m, C)]
EndRun(m) == LET C(S) == {h \in S : ~h.want}
                 m1 == [m EXCEPT !.run = FALSE, !.H = Map(m, C)]
             IN  IF \E k \in DOMAIN m1.H : m1.H[k] = {} THEN Bad(m1, Polls(m)) ELSE m1
Idle(m) == LET C(S) == {h \in S : Calm(h, m.now)}
               m1 == [m EXCEPT !.H = Map(m, C)]
               owed == IF \E k \in DOMAIN m1.H : m1.H[k] = {} THEN Polls(m) ELSE {}
               t == IF \E k \in DOMAIN m.tms : LET x == m.tms[k] IN x.st = "on" /\ x.at <= m.now THEN {"P03"} ELSE {}
           IN  Bad(m1, owed \cup t)
AtQ(m, q) == IF q = 0 /\ m.bad = {} THEN Idle(m) ELSE m

Add(m, k, op) == LET f(h) == [h EXCEPT !.pend = Append(@, op)] IN
    IF k \notin DOMAIN m.H THEN m ELSE [m EXCEPT !.H[k] = {f(h) : h \in m.H[k]}, !.ctl = TRUE]
AddAll(m, ses, op) == [m EXCEPT !.H = [k \in DOMAIN m.H |-> IF m.polls[k].s = ses THEN {[h EXCEPT !.pend = Append(@, op)] : h \in m.H[k]} ELSE m.H[k]], !.ctl = TRUE]

Send(m, ev) ==
    IF ev.k \notin DOMAIN m.H THEN Bad(m, {"P01"})
    ELSE LET p == m.polls[ev.k]
             S == {h \in m.H[ev.k] : h.want}
             N == {[h EXCEPT !.want = FALSE, !.cur = ev.i, !.old = 0] : h \in S}
             right == ev.b = RequestBytes(p.rq) /\ ev.u = p.u /\ ev.to = p.to
         IN  IF S = {} \/ m.calls > 0 \/ ~m.run \/ m.cur.i # 0 THEN Bad(m, Polls(m))
             ELSE Bad([m EXCEPT !.H[ev.k] = Close(N, m.now), !.snds = Ext(@, ev.i, [k |-> ev.k, rq |-> p.rq])], IF right THEN {} ELSE {"P01"})

Complete(m, ev) == [m EXCEPT !.cur = [i |-> ev.i, res |-> IF ev.r.k = "val" THEN AnswerVerdict(m.snds[ev.i].rq, ev.r.b) ELSE ev.r, seen |-> 0]]
Freqs(h) == {h.per} \cup {h.pend[j].per : j \in {j \in DOMAIN h.pend : h.pend[j].a = "freq"}}
Completed(m) ==
    LET i == m.cur.i
        k == m.snds[i].k
        F(h) == IF h.cur = i THEN (IF h.run THEN {[h EXCEPT !.cur = 0, !.wait = m.now + p] : p \in Freqs(h)} ELSE {[h EXCEPT !.cur = 0]})
                ELSE IF h.old = i THEN {[h EXCEPT !.old = 0]} ELSE {h}
    IN  Bad([m EXCEPT !.cur.i = 0, !.H[k] = UNION {F(h) : h \in @}], IF m.cur.seen = 1 THEN {} ELSE Polls(m))

Get(m, ev) ==
    LET ok(h) == /\ ev.per \in Freqs(h)
                 /\ \/ h.run = (ev.run = 1)
                    \/ \E j \in DOMAIN h.pend : h.pend[j].a = (IF ev.run = 1 THEN "start" ELSE "stop")
                    \/ ev.run = 0 /\ (h.kill \/ \E j \in DOMAIN h.pend : h.pend[j].a = "kill")
    IN  IF ev.k \notin DOMAIN m.H \/ \E h \in m.H[ev.k] : ok(h) THEN m ELSE Bad(m, {"P02"})

Fire(m, ev) == LET x == m.tms[ev.t]
                   ok == x.st \in {"on", "may"} /\ m.now >= x.at /\ m.calls = 0 /\ m.run
               IN  Bad([m EXCEPT !.tms[ev.t].st = "fired"], IF ok THEN {} ELSE {"P03"})

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e \in {"crash", "hang"} -> Bad(m, {"P01", "P02", "P03"})
           [] ev.e = "sch" -> [m EXCEPT !.polls = Ext(@, ev.k, [s |-> ev.s, u |-> ev.u, rq |-> ev.rq, to |-> ev.to]), !.H = Ext(@, ev.k, {H0(ev.per)}), !.calls = @ + 1]
           [] ev.e \in {"start", "stop"} -> [Add(m, ev.k, [a |-> ev.e]) EXCEPT !.calls = @ + 1]
           [] ev.e = "freq" -> [Add(m, ev.k, [a |-> "freq", per |-> ev.per]) EXCEPT !.calls = @ + 1]
           [] ev.e = "sshut" -> [AddAll(m, ev.s, [a |-> "kill"]) EXCEPT !.calls = @ + 1]
           [] ev.e = "ret" -> AtQ([m EXCEPT !.calls = @ - 1], ev.q)
           [] ev.e = "get" -> Get(m, ev)
           [] ev.e = "run" -> BeginRun(m)
           [] ev.e = "ran" -> LET m1 == EndRun(m) IN AtQ(m1, ev.q)
           [] ev.e = "adv" -> AtQ([m EXCEPT !.now = ev.now], ev.q)
           [] ev.e = "snd" -> Send(m, ev)
           [] ev.e = "comp" -> Complete(m, ev)
           [] ev.e = "done" -> IF m.cur.i # 0 /\ m.snds[m.cur.i].k = ev.k /\ ev.r = m.cur.res /\ m.cur.seen = 0 THEN [m EXCEPT !.cur.seen = 1] ELSE Bad(m, {"P01"})
           [] ev.e = "compend" -> LET m1 == Completed(m) IN AtQ(m1, ev.q)
           [] ev.e = "tset" -> [m EXCEPT !.tms = Ext(@, ev.t, [at |-> ev.at, st |-> "on"]), !.calls = @ + 1]
           [] ev.e = "tcancel" -> [m EXCEPT !.tms[ev.t].st = IF @ = "on" THEN (IF m.tms[ev.t].at <= m.now THEN "may" ELSE "off") ELSE @, !.calls = @ + 1]
           [] ev.e = "tfire" -> Fire(m, ev)
           [] ev.e = "texp" -> IF ev.v = m.tms[ev.t].at \/ m.tms[ev.t].st # "on" THEN m ELSE Bad(m, {"P03"})
           [] OTHER -> m
===============================================================================
