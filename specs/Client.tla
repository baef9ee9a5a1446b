------------------------------- MODULE Client ---------------------------------
(* Design of the client channel: a FIFO executor, a queue of accepted requests,    *)
(* at most one outstanding request with its timer, and the frame parser. Every      *)
(* operation maps a state to a state whose 'ev' is what becomes observable.         *)
(* Request k is "read holding register k" of unit U; answers carry the value 1000+k.*)
(* Mut names a deviation of the design ("none" for the design itself); deviations    *)
(* serve to show that the properties are able to fail.                              *)
EXTENDS Codec, Integers, TLC
CONSTANT Mut
U == 17
Rq(k, valid) == [fn |-> 3, a |-> k, n |-> IF valid THEN 1 ELSE 0]
Answer(k) == << 3, 2 >> \o W(1000 + k)

S0 == [q |-> <<>>,          \* work posted to the executor
       pend |-> <<>>,       \* accepted requests, not transmitted
       cur |-> 0,           \* the outstanding request
       timers |-> <<>>,     \* [k, t, at]: armed timers, t the transaction of request k
       now |-> 0, next |-> 0,
       tids |-> <<>>,       \* request -> transaction identifier, once accepted
       tos |-> <<>>,        \* request -> timeout
       re |-> <<>>,         \* request -> resubmits when it completes
       sent |-> {},         \* requests that were transmitted
       buf |-> <<>>, rest |-> <<>>,
       shut |-> FALSE, ev |-> <<>>]

E(s, e) == [s EXCEPT !.ev = Append(@, e)]
Post(s, a) == [s EXCEPT !.q = Append(@, a)]
PutF(f, k, v) == (k :> v) @@ f

\* ------------------------------------------------------------------ API calls

Call(s, ev) == E(s, ev)
Ret(s, of, nested) == E(s, [e |-> "ret", of |-> of, ok |-> 1, q |-> IF nested THEN -1 ELSE Len(s.q)])

Resolve(s, k, r) == E(s, [e |-> "done", k |-> k, n |-> 1, r |-> r])

\* IClientSession::send_request
SubmitTo(s, k, valid, to, re, nested) ==
    LET s1 == Call([s EXCEPT !.tos = PutF(@, k, to), !.re = PutF(@, k, re)], [e |-> "sub", k |-> k, u |-> U, rq |-> Rq(k, valid), to |-> to])
        s2 == IF s.shut THEN s1
              ELSE IF valid \/ Mut = "sendbad" THEN Post(s1, [a |-> "send", k |-> k])
              ELSE IF Mut = "inline" THEN Resolve(s1, k, [k |-> "malreq"])
              ELSE Post(s1, [a |-> "reject", k |-> k])
    IN  Ret(s2, "sub", nested)

\* a handler runs; it may submit another request (k + 10)
Complete(s, k, r) ==
    LET s1 == Resolve(s, k, r)
    IN  IF s.re[k] THEN SubmitTo(s1, k + 10, TRUE, 1, FALSE, TRUE) ELSE s1

Shutdown(s) == Ret(Post(Call(s, [e |-> "shut"]), [a |-> "shut"]), "shut", FALSE)

\* ------------------------------------------------------- work of the executor

Arm(s, k) == [s EXCEPT !.timers = Append(@, [k |-> k, at |-> s.now + s.tos[k]])]
Disarm(s, k) == [s EXCEPT !.timers = SelectSeq(@, LAMBDA t : t.k # k)]

CheckPending(s) ==
    IF s.shut \/ (s.cur # 0 /\ Mut # "early") \/ s.pend = <<>> THEN s
    ELSE LET k == IF Mut = "lifo" THEN s.pend[Len(s.pend)] ELSE Head(s.pend)
             s1 == [s EXCEPT !.cur = k, !.pend = IF Mut = "lifo" THEN SubSeq(@, 1, Len(@) - 1) ELSE Tail(@), !.sent = @ \cup {k}]
         IN  Arm(E(s1, [e |-> "tx", b |-> Frame(s.tids[k], U, RequestBytes(Rq(k, TRUE)))]), k)

Finish(s, k, r) ==      \* completes the outstanding request and goes on with the next one
    LET s1 == Complete(Disarm(s, k), k, r)
        s2 == IF Mut = "keepcur" THEN s1 ELSE [s1 EXCEPT !.cur = 0]
    IN  IF Mut = "nonext" /\ r.k = "tmo" THEN s2 ELSE CheckPending(s2)

Act(s, a) ==
    CASE a.a = "send" -> IF s.shut THEN s
                         ELSE CheckPending([s EXCEPT !.pend = Append(@, a.k), !.tids = PutF(@, a.k, s.next), !.next = IF Mut = "sametid" THEN @ ELSE (@ + 1) % 65536])
      [] a.a = "reject" -> IF s.shut /\ Mut # "latereject" THEN s ELSE Complete(s, a.k, [k |-> "malreq"])
      [] a.a = "timer" -> IF s.shut \/ s.cur = 0 \/ (s.cur # a.k /\ Mut # "stale") THEN s
                          ELSE Finish(s, s.cur, [k |-> "tmo"])
      [] a.a = "shut" -> E([s EXCEPT !.shut = TRUE, !.pend = <<>>, !.cur = 0, !.timers = <<>>], [e |-> "cshut"])

RunOne(s) == LET s1 == Act(E([s EXCEPT !.q = Tail(@)], [e |-> "run"]), Head(s.q)) IN E(s1, [e |-> "ran", q |-> Len(s1.q)])

\* time passes: the actions of expired timers join the queue, earliest expiry first
RECURSIVE Expire(_)
Expire(s) ==
    LET due == {i \in DOMAIN s.timers : s.timers[i].at <= s.now}
    IN  IF due = {} THEN s
        ELSE LET i == CHOOSE i \in due : \A j \in due : s.timers[i].at < s.timers[j].at \/ (s.timers[i].at = s.timers[j].at /\ i <= j)
             IN  Expire(Post([s EXCEPT !.timers = [j \in 1 .. Len(@) - 1 |-> @[IF j < i THEN j ELSE j + 1]]], [a |-> "timer", k |-> s.timers[i].k]))
Advance(s) == LET s1 == Expire([s EXCEPT !.now = @ + 1]) IN E(s1, [e |-> "adv", now |-> s1.now, q |-> Len(s1.q)])

\* ------------------------------------------------------------------ connection

RECURSIVE Frames(_, _)
Frames(s, fs) ==
    IF fs = <<>> THEN s
    ELSE LET f == Head(fs)
             match == s.cur # 0 /\ IsMessage(f) /\ (At(f, 1) = s.tids[s.cur] \/ Mut = "anytid") /\ (f[7] = U \/ Mut = "anyunit")
         IN  Frames(IF match /\ ~s.shut THEN Finish(s, s.cur, AnswerVerdict(Rq(s.cur, TRUE), Sub(f, 8, Len(f)))) ELSE s, Tail(fs))

Deliver(s, b) ==
    LET s1 == E(s, [e |-> "rx", b |-> b])
        p == Feed(s1.buf, <<>>, b)
        s2 == IF s.shut THEN s1 ELSE Frames([s1 EXCEPT !.buf = p.buf], p.fs)
    IN  E(s2, [e |-> "rxend", q |-> Len(s2.q)])

RECURSIVE FailAll(_, _)
FailAll(s, ks) == IF ks = <<>> THEN s ELSE FailAll(Complete(s, Head(ks), [k |-> "conn"]), Tail(ks))

Break(s) ==
    LET s1 == E([s EXCEPT !.rest = <<>>], [e |-> "err"])
        s2 == IF s.shut THEN s1
              ELSE LET a == IF Mut = "noreset" THEN s1 ELSE [s1 EXCEPT !.buf = <<>>]
                       b == IF Mut = "keepqueue" THEN a ELSE FailAll([a EXCEPT !.pend = <<>>], a.pend)
                   IN  IF b.cur = 0 THEN b ELSE Finish(b, b.cur, [k |-> "conn"])
    IN  E(s2, [e |-> "errend", q |-> Len(s2.q)])
===============================================================================
