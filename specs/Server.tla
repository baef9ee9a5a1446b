-------------------------------- MODULE Server ----------------------------------
(* Design of the server channel: a FIFO executor for the API calls, a table of      *)
(* sessions, and one stream parser per connection whose messages are answered at     *)
(* once. Mut names a deviation of the design ("none" for the design itself).         *)
EXTENDS Codec, Integers, TLC
CONSTANT Mut
S0 == [q |-> <<>>, reg |-> <<>>, started |-> FALSE, shut |-> FALSE, bufs |-> <<>>, rest |-> <<>>, ev |-> <<>>]
E(s, e) == [s EXCEPT !.ev = Append(@, e)]
Post(s, a) == [s EXCEPT !.q = Append(@, a)]
PutF(f, k, v) == (k :> v) @@ f
Ret(s, of) == E(s, [e |-> "ret", of |-> of, q |-> Len(s.q)])

CallStart(s) == Ret(IF s.shut THEN E(s, [e |-> "start"]) ELSE Post(E(s, [e |-> "start"]), [a |-> "start"]), "start")
CallShut(s) == Ret(Post(E(s, [e |-> "shut"]), [a |-> "shut"]), "shut")
CallAdd(s, u, x) == LET s1 == E(s, [e |-> "add", u |-> u, s |-> x]) IN Ret(IF s.shut THEN s1 ELSE Post(s1, [a |-> "add", u |-> u, s |-> x]), "add")

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE ShutAll(_, _)
ShutAll(s, us) == IF us = {} THEN s ELSE LET u == CHOOSE u \in us : TRUE IN ShutAll(E(s, [e |-> "sshut", s |-> s.reg[u]]), us \ {u})
Act(s, a) ==
    CASE a.a = "start" -> IF s.shut /\ Mut # "latestart" THEN s ELSE E([s EXCEPT !.started = TRUE], [e |-> "lstart"])
      [] a.a = "add" -> IF s.shut \/ (Mut = "keepold" /\ a.u \in DOMAIN s.reg) THEN s ELSE [s EXCEPT !.reg = PutF(@, a.u, a.s)]
      [] a.a = "shut" -> LET s1 == IF s.started THEN E(s, [e |-> "lstop"]) ELSE s
                             s2 == ShutAll(s1, DOMAIN s.reg)
                         IN  [s2 EXCEPT !.shut = Mut # "deaf", !.started = FALSE, !.reg = IF Mut = "keepsess" THEN @ ELSE <<>>]
RunOne(s) == LET s1 == Act(E([s EXCEPT !.q = Tail(@)], [e |-> "run"]), Head(s.q)) IN E(s1, [e |-> "ran", q |-> Len(s1.q)])

Connect(s, c) == E([s EXCEPT !.bufs = PutF(@, c, <<>>), !.rest = PutF(@, c, <<>>)], [e |-> "conn", c |-> c])

\* what session x answers to rq
AnswerOf(x, rq) == IF x = 2 THEN [exc |-> 4] ELSE IF rq.fn = 6 THEN [oth |-> 0] ELSE [vs |-> [i \in 1 .. rq.n |-> 100 + i]]
Wire(rq, ans) == IF "exc" \in DOMAIN ans THEN ExceptionBytes(rq.fn, ans.exc) ELSE AnswerBytes([fn |-> rq.fn] @@ ans)

Handle(s, c, f) ==
    LET u == f[7]
        v == CHOOSE v \in RequestVerdicts(SubSeq(f, 8, Len(f))) : TRUE
        to == IF Mut = "cross" THEN 1 ELSE c
        send(st, b) == E(st, [e |-> "tx", c |-> to, b |-> Frame(IF Mut = "tid" THEN 0 ELSE At(f, 1), u, b)])
    IN  IF s.shut \/ ~IsMessage(f) \/ u \notin DOMAIN s.reg THEN s
        ELSE CASE v.k = "drop" -> s
               [] v.k = "exc" /\ Mut # "lax" -> send(s, ExceptionBytes(f[8], v.c))
               [] OTHER -> LET rq == IF v.k = "ok" THEN v.rq ELSE [fn |-> f[8], a |-> 0, n |-> 0]
                               ans == AnswerOf(s.reg[u], rq)
                               s1 == E(s, [e |-> "call", s |-> s.reg[u], rq |-> rq, ans |-> ans])
                               s2 == IF Mut = "twice" THEN E(s1, [e |-> "call", s |-> s.reg[u], rq |-> rq, ans |-> ans]) ELSE s1
                           IN  IF "oth" \in DOMAIN ans THEN s2 ELSE send(s2, Wire(rq, ans))
RECURSIVE HandleAll(_, _, _)
HandleAll(s, c, fs) == IF fs = <<>> THEN s ELSE HandleAll(Handle(s, c, Head(fs)), c, Tail(fs))
Deliver(s, c, b) ==
    LET s1 == E(s, [e |-> "rx", c |-> c, b |-> b])
        p == Feed(IF Mut = "onebuf" THEN s.bufs[1] ELSE s.bufs[c], <<>>, b)
        s2 == HandleAll([s1 EXCEPT !.bufs[IF Mut = "onebuf" THEN 1 ELSE c] = p.buf], c, p.fs)
    IN  E(s2, [e |-> "rxend", q |-> Len(s2.q)])
===============================================================================
