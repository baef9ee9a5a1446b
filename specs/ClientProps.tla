----------------------------- MODULE ClientProps ------------------------------
(* What a user and the peer may observe of one client channel. MStep folds the    *)
(* observed events and names the properties they break. It constrains only what   *)
(* is observable: which work runs in which queued action is left open, and         *)
(* obligations ("has completed", "has been transmitted") are judged when the       *)
(* executor has nothing left to run (an end event with q = 0).                     *)
(*   sub k u rq to / ret     a one-time request is submitted (call .. return)      *)
(*   sch k u rq to per       a scheduled request is created; start, stop, freq     *)
(*   open, shut / ret        create_session, shutdown of the channel               *)
(*   run / ran q             one queued action runs; q actions remain (-1: nested) *)
(*   adv now q               virtual time passes                                   *)
(*   rx b / rxend q          the connection delivers the bytes b                   *)
(*   err / errend q          the connection fails                                  *)
(*   burn n tids ok extra    n requests, each answered at once, in a row             *)
(*   tx b, cshut             the channel writes b, shuts the connection down       *)
(*   done k n r              n-th completion of k with result r                    *)
EXTENDS Codec, Integers, TLC

None == [k |-> 0]
MInit == [now |-> 0, rq |-> <<>>, order |-> <<>>, polls |-> <<>>, out |-> None, tid |-> -1, buf |-> <<>>, fq |-> <<>>, calls |-> 0,
          shut |-> FALSE, cshut |-> FALSE, silent |-> FALSE, err |-> FALSE, errNow |-> FALSE, frag |-> FALSE, bad |-> {}]

Known(f, k) == k \in DOMAIN f
Ext(f, k, v) == (k :> v) @@ f
Bad(m, p) == [m EXCEPT !.bad = @ \cup p]
Live(m) == SelectSeq(m.order, LAMBDA k : m.rq[k].st = "acc")

\* ------------------------------------------------------------------- events

Submit(m, ev) ==
    LET valid == ValidRequest(ev.rq)
        r == [u |-> ev.u, rq |-> ev.rq, to |-> ev.to, valid |-> valid, st |-> "acc", err |-> FALSE, must |-> FALSE, settled |-> FALSE]
        m1 == [m EXCEPT !.rq = Ext(@, ev.k, r), !.calls = @ + 1]
    IN  IF valid THEN [m1 EXCEPT !.order = Append(@, ev.k)] ELSE m1

\* the frames in fq, up to and including the first one that answers the outstanding request; later ones wait in case
\* another request is transmitted while they are processed
RECURSIVE Match(_, _)
Match(m, must) ==
    IF m.fq = <<>> \/ m.out.k = 0 THEN m
    ELSE IF m.out.match # "no" THEN m
    ELSE LET f == Head(m.fq)
             m1 == [m EXCEPT !.fq = Tail(@)]
         IN  IF IsMessage(f) /\ At(f, 1) = m.out.tid /\ f[7] = m.out.u /\ ~m.out.lost
             THEN [m1 EXCEPT !.out.match = IF must THEN "must" ELSE "may", !.out.res = AnswerVerdict(m.out.rq, Sub(f, 8, Len(f))), !.out.intime = m.now < m.out.dl]
             ELSE Match(m1, must)

Receive(m, ev) ==
    LET p == Feed(m.buf, <<>>, ev.b)
        cut == m.buf # <<>> \/ Len(p.fs) # 1 \/ p.buf # <<>> \/ \E i \in DOMAIN p.fs : ~IsMessage(p.fs[i])
        m1 == [m EXCEPT !.buf = p.buf, !.fq = p.fs, !.frag = @ \/ cut]
    IN  Match(IF m.out.k # 0 THEN [m1 EXCEPT !.out.seen = TRUE] ELSE m1, TRUE)

Fail(m) ==
    LET hit(r) == IF r.st = "acc" /\ r.valid THEN [r EXCEPT !.err = TRUE, !.must = @ \/ r.settled] ELSE r
        m1 == [m EXCEPT !.rq = [k \in DOMAIN m.rq |-> hit(m.rq[k])], !.buf = <<>>, !.err = TRUE, !.errNow = TRUE]
    IN  IF m.out.k # 0 /\ m.out.match = "no" /\ ~m.out.lost
        THEN [m1 EXCEPT !.out.lost = TRUE, !.out.intime = m.now < m.out.dl] ELSE m1

\* the outstanding request has been given up: what may have made the channel do so
Given(o, now) == {"C02"} \cup (IF o.seen /\ o.match = "no" THEN {"C03"} ELSE {}) \cup (IF o.lost THEN {"C05"} ELSE {}) \cup (IF now >= o.dl THEN {"C04"} ELSE {})

Transmit(m, ev) ==
    LET b == ev.b
        a == IF Len(b) >= 10 THEN At(b, 9) ELSE -1
        fn == IF Len(b) >= 10 THEN b[8] ELSE -1
        ks == {k \in DOMAIN m.rq : m.rq[k].rq.a = a /\ m.rq[k].rq.fn = fn}
        ps == {k \in DOMAIN m.polls : m.polls[k].rq.a = a /\ m.polls[k].rq.fn = fn}
        tid == At(b, 1)
        d == (tid - m.tid + 65536) % 65536
        always == (IF m.silent THEN {"C06"} ELSE {}) \cup (IF m.calls > 0 THEN {"C07"} ELSE {})
    IN  IF Cardinality(ks \cup ps) # 1 THEN Bad(m, always \cup {"C02", "C09"})
        ELSE LET k == CHOOSE x \in ks \cup ps : TRUE
                 r == IF ks # {} THEN m.rq[k] ELSE m.polls[k]
                 one == ks # {}
                 bad == always
                        \cup (IF one /\ ~r.valid THEN {"C08"} ELSE {})
                        \cup (IF m.out.k # 0 THEN Given(m.out, m.now) ELSE {})
                        \cup (IF one /\ r.valid /\ (Live(m) = <<>> \/ Head(Live(m)) # k) THEN {"C02"} ELSE {})
                        \cup (IF one /\ r.must THEN {"C05"} ELSE {})
                        \cup (IF m.tid >= 0 /\ d \notin 1 .. 32767 THEN {"C02"} ELSE {})
                        \cup (IF b # Frame(tid, r.u, RequestBytes(r.rq)) THEN {"C09"} ELSE {})
                 m1 == Bad([m EXCEPT !.out = [k |-> k, u |-> r.u, rq |-> r.rq, tid |-> tid, dl |-> m.now + r.to, match |-> "no", res |-> Mal, intime |-> TRUE, lost |-> FALSE, seen |-> FALSE, poll |-> ~one],
                                      !.tid = tid], bad)
                 m2 == IF one THEN [m1 EXCEPT !.rq[k].st = "out", !.rq[k].err = FALSE] ELSE m1
             IN  Match(m2, FALSE)

\* the result r of the outstanding request
JudgeOut(m, r) ==
    CASE r.k = "conn" -> IF m.out.lost THEN {} ELSE {"C05"}
      [] r.k = "tmo" -> (IF m.now < m.out.dl \/ (m.out.match = "must" /\ m.out.intime) THEN {"C04"} ELSE {})
                        \cup (IF m.out.match = "must" /\ m.out.intime THEN {"C03", "C10"} ELSE {})
                        \cup (IF m.out.lost /\ m.out.intime THEN {"C05"} ELSE {})
      [] r.k \in {"val", "exc", "mal"} -> IF m.out.match = "no" THEN {"C03"} \cup (IF m.err THEN {"C05"} ELSE {})
                                          ELSE IF r # m.out.res THEN {"C03", "C10"} \cup (IF m.frag THEN {"F01"} ELSE {}) ELSE {}
      [] r.k = "malreq" -> {"C08"}
      [] OTHER -> {"C01"}

\* what brings a completion about that is not due
Cause(r) == CASE r.k = "conn" -> {"C05"} [] r.k = "tmo" -> {"C04"} [] r.k \in {"val", "exc", "mal"} -> {"C03"} [] r.k = "malreq" -> {"C08"} [] OTHER -> {}

Done(m, ev) ==
    LET k == ev.k
        always == (IF m.silent THEN {"C06"} ELSE {}) \cup (IF m.calls > 0 THEN {"C07"} ELSE {})
    IN  IF Known(m.polls, k) THEN
            IF m.out.k = k THEN Bad([m EXCEPT !.out = None], always \cup JudgeOut(m, ev.r))
            ELSE Bad(m, always \cup (IF ev.r.k = "conn" /\ m.errNow THEN {} ELSE {"C01"} \cup Cause(ev.r)))
        ELSE IF ~Known(m.rq, k) THEN Bad(m, {"C01"})
        ELSE LET r == m.rq[k]
                 m1 == [m EXCEPT !.rq[k].st = "done"]
             IN  IF r.st = "done" \/ ev.n # 1 THEN Bad(m, always \cup {"C01"} \cup Cause(ev.r) \cup (IF r.valid THEN {} ELSE {"C08"}))
                 ELSE IF ~r.valid THEN Bad(m1, always \cup (IF ev.r.k = "malreq" THEN {} ELSE {"C08"}))
                 ELSE IF m.out.k = k THEN Bad([m1 EXCEPT !.out = None], always \cup JudgeOut(m, ev.r))
                 ELSE Bad(m1, always \cup CASE ev.r.k = "conn" -> (IF r.err THEN {} ELSE {"C05"})
                                            [] ev.r.k = "tmo" -> {"C04"}
                                            [] ev.r.k \in {"val", "exc", "mal"} -> {"C03"}
                                            [] ev.r.k = "malreq" -> {"C08"}
                                            [] OTHER -> {"C01"})

\* a run of many requests, each answered at once: their identifiers, and how many completed as they should
Burn(m, ev) ==
    LET ok == /\ Len(ev.tids) = ev.n
              /\ \A i \in 1 .. Len(ev.tids) : ((ev.tids[i] - (IF i = 1 THEN (IF m.tid < 0 THEN ev.tids[1] - 1 ELSE m.tid) ELSE ev.tids[i - 1])) + 65536) % 65536 \in 1 .. 32767
    IN  Bad([m EXCEPT !.tid = IF ev.tids = <<>> THEN @ ELSE ev.tids[Len(ev.tids)]],
            (IF ok THEN {} ELSE {"C02"}) \cup (IF ev.ok = ev.n /\ ev.extra = 0 THEN {} ELSE {"C01", "C03"}))

\* everything the channel was given to do has been done
Idle(m) ==
    IF m.shut THEN [m EXCEPT !.silent = TRUE, !.bad = @ \cup (IF m.cshut THEN {} ELSE {"C06"})]
    ELSE LET errs == IF m.err THEN {"C05"} ELSE {}
             o == m.out
             owed == (IF o.k # 0 THEN (IF o.match = "must" THEN {"C01", "C03", "C10"} \cup errs \cup (IF m.frag THEN {"F01"} ELSE {}) ELSE {})
                                      \cup (IF m.now >= o.dl THEN {"C01", "C04"} ELSE {})
                                      \cup (IF o.lost THEN {"C01", "C05"} ELSE {})
                      ELSE IF Live(m) # <<>> THEN {"C01", "C02"} \cup errs \cup (IF \E k \in DOMAIN m.rq : ~m.rq[k].valid /\ ~m.rq[k].settled THEN {"C08"} ELSE {}) ELSE {})
             rest == UNION {IF m.rq[k].st # "acc" THEN {} ELSE (IF m.rq[k].valid THEN {} ELSE {"C01", "C08"}) \cup (IF m.rq[k].must THEN {"C01", "C05"} ELSE {}) : k \in DOMAIN m.rq}
             calm(r) == IF r.st = "acc" \/ ~r.valid THEN [r EXCEPT !.settled = TRUE, !.err = FALSE] ELSE r
         IN  Bad([m EXCEPT !.rq = [k \in DOMAIN m.rq |-> calm(m.rq[k])], !.errNow = FALSE], owed \cup rest)

End(m, ev) ==
    LET m1 == IF m.cshut /\ m.shut /\ m.calls = 0 THEN [m EXCEPT !.silent = TRUE] ELSE m
    IN  IF ev.q = 0 /\ m1.bad = {} THEN Idle(m1) ELSE m1

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e \in {"crash", "hang"} -> Bad(m, {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "F01"})
           [] ev.e = "sub" -> Submit(m, ev)
           [] ev.e = "sch" -> [m EXCEPT !.polls = Ext(@, ev.k, [u |-> ev.u, rq |-> ev.rq, to |-> ev.to, valid |-> TRUE, must |-> FALSE]), !.calls = @ + 1]
           [] ev.e \in {"start", "stop", "freq", "open"} -> [m EXCEPT !.calls = @ + 1]
           [] ev.e = "shut" -> [m EXCEPT !.shut = TRUE, !.calls = @ + 1]
           [] ev.e = "ret" -> LET m1 == [m EXCEPT !.calls = @ - 1]
                                  m2 == IF ev.of # "open" THEN m1
                                        ELSE IF m.silent THEN (IF ev.ok = 1 THEN Bad(m1, {"C06"}) ELSE m1)
                                        ELSE IF ~m.shut /\ ev.ok = 0 THEN Bad(m1, {"C01"}) ELSE m1
                              IN  IF ev.q = 0 /\ m2.bad = {} THEN Idle(m2) ELSE m2
           [] ev.e = "run" -> m
           [] ev.e \in {"ran", "errend"} -> End(m, ev)
           [] ev.e = "rxend" -> End([m EXCEPT !.fq = <<>>], ev)
           [] ev.e = "adv" -> End([m EXCEPT !.now = ev.now], ev)
           [] ev.e = "rx" -> Receive(m, ev)
           [] ev.e = "err" -> Fail(m)
           [] ev.e = "tx" -> Transmit(m, ev)
           [] ev.e = "done" -> Done(m, ev)
           [] ev.e = "burn" -> Burn(m, ev)
           [] ev.e = "cshut" -> [m EXCEPT !.cshut = TRUE]
           [] OTHER -> m
===============================================================================
