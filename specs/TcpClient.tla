------------------------------- MODULE TcpClient --------------------------------
(* Design of a client channel with its TCP connection: one strand runs tasks in the  *)
(* order in which they were posted; asynchronous operations complete between them.    *)
(* A connection attempt and the connection it leads to is a generation: handlers know *)
(* the generation they belong to.  A frame is written in one or two parts.            *)
EXTENDS Codec, Integers, TLC
CONSTANT Mut

\* q: posted tasks;  cur, pend: the channel's current and waiting requests
\* st: "no", "conn", "up";  sock: the current generation, 0: none
\* g: generation -> [open, conn: a peer has accepted it, left: the peer has closed, pipe: answers under way, got: bytes the peer has]
\* wq: frames to write, the head under way;  ops: operations under way
\* ad: the adapter, "": any;  up: the peer listens;  res: 0 the name has an address, 1 none, 2 two of which the second one works
S0 == [q |-> <<>>, cur |-> 0, pend |-> <<>>, st |-> "no", sock |-> 0, g |-> <<>>, wq |-> <<>>, ops |-> {}, up |-> TRUE, res |-> 0, ad |-> "",
       timer |-> {}, shut |-> FALSE, ev |-> <<>>]
Request(k) == [fn |-> 3, a |-> k, n |-> 1]
FrameOf(k) == Frame(k - 1, 1, RequestBytes(Request(k)))
AnswerOf(k) == Frame(k - 1, 1, <<3, 2, 0, k>>)
Post(s, t) == [s EXCEPT !.q = Append(@, t)]
Out(s, e) == [s EXCEPT !.ev = Append(@, e)]
DoneWith(s, k, r) == Out(s, [e |-> "done", k |-> k, r |-> r])
Op(t, g, x) == [t |-> t, g |-> g, x |-> x]

\* ---------------------------------------------------------- the connection

Write(s) == IF s.wq = <<>> \/ s.sock = 0 THEN s ELSE [s EXCEPT !.ops = @ \cup {Op("write", s.sock, Head(s.wq) * 10)}]
Read(s) == IF s.sock = 0 THEN s ELSE [s EXCEPT !.ops = @ \cup {Op("read", s.sock, 0)}]
Send(s, k) ==
    LET s1 == [s EXCEPT !.wq = Append(IF (s.st # "up" /\ Mut # "resend") \/ Mut = "overwrite" THEN <<>> ELSE @, k)]
        n == Len(s.g) + 1
    IN  IF s.st = "no" THEN [s1 EXCEPT !.st = "conn", !.sock = n, !.g = Append(@, [open |-> TRUE, conn |-> FALSE, left |-> FALSE, pipe |-> <<>>, got |-> 0]),
                                       !.ops = @ \cup {Op("resolve", n, 0)}]
        ELSE IF s.st = "up" /\ Len(s1.wq) = 1 THEN Write(s1)
        ELSE s1
\* operations of a closed socket end with an error
RECURSIVE Aborted(_, _)
Aborted(s, os) ==
    IF os = {} THEN s
    ELSE LET o == CHOOSE o \in os : TRUE
         IN  Aborted(Post([s EXCEPT !.ops = @ \ {o}], [t |-> CASE o.t = "write" -> "written" [] o.t = "read" -> "read" [] OTHER -> "connected", g |-> o.g, x |-> o.x, ok |-> FALSE]), os \ {o})
CloseSocket(s) ==
    LET n == s.sock IN
    IF n = 0 \/ ~s.g[n].open THEN s
    ELSE LET s1 == [s EXCEPT !.g[n].open = FALSE]
             s2 == IF s1.g[n].conn /\ ~s1.g[n].left THEN Out(s1, [e |-> "pend", p |-> 100 + n]) ELSE s1
         IN  Aborted(s2, {o \in s2.ops : o.g = n /\ o.t # "resolve"})
Disconnect(s) ==
    IF Mut = "asyncclose" /\ ~s.shut THEN Post(s, [t |-> "close", g |-> 0, x |-> 0, ok |-> TRUE])
    ELSE LET s1 == CloseSocket(s) IN [s1 EXCEPT !.st = "no", !.sock = 0, !.wq = IF Mut = "resend" THEN @ ELSE <<>>]

\* -------------------------------------------------------------- the channel

Check(s) ==
    IF s.cur # 0 \/ s.pend = <<>> THEN s
    ELSE LET k == Head(s.pend) IN [Send([s EXCEPT !.cur = k, !.pend = Tail(@)], k) EXCEPT !.timer = {k}]
RECURSIVE FailAll(_, _)
FailAll(s, ks) == IF ks = <<>> THEN s ELSE FailAll(DoneWith(s, Head(ks), [k |-> "conn"]), Tail(ks))
Error(s) ==
    LET s1 == FailAll([s EXCEPT !.pend = <<>>], s.pend)
    IN  IF s1.cur = 0 THEN s1 ELSE [DoneWith(s1, s1.cur, [k |-> "conn"]) EXCEPT !.cur = 0, !.timer = {}]
Fail(s) == Error(Disconnect(s))

Stale(s, t) == \/ s.shut \/ (t.g # s.sock /\ Mut # "stale") \/ (Mut = "stale" /\ s.sock = 0 /\ t.t # "read")
Connect(s, e) == [s EXCEPT !.ops = @ \cup {Op("connect", s.sock, e)}]
RunResolved(s, t) ==
    IF Stale(s, t) THEN s ELSE IF ~t.ok THEN Fail(s) ELSE Connect(s, t.x)
\* x: how many endpoints are left, this one included
RunConnected(s, t) ==
    IF Stale(s, t) THEN s
    ELSE IF ~t.ok THEN (IF t.x > 1 /\ Mut # "firstonly" THEN Connect(s, t.x - 1) ELSE Fail(s))
    ELSE Read(Write([s EXCEPT !.st = "up"]))
RunRead(s, t) ==
    IF Stale(s, t) THEN s
    ELSE IF ~t.ok THEN (IF Mut = "quieteof" THEN Disconnect(s) ELSE Fail(s))
    ELSE Read(IF s.cur # t.x THEN s
              ELSE Check([DoneWith(s, t.x, [k |-> "val", a |-> t.x, vs |-> <<t.x>>]) EXCEPT !.cur = 0, !.timer = {}]))
RunWritten(s, t) ==
    IF Stale(s, t) THEN s
    ELSE IF ~t.ok THEN (IF Mut = "ignoreerr" THEN [s EXCEPT !.wq = <<>>] ELSE Fail(s))
    ELSE IF s.wq = <<>> THEN s
    ELSE IF Mut = "dropnext" THEN [s EXCEPT !.wq = <<>>] ELSE Write([s EXCEPT !.wq = Tail(@)])
RunShut(s) ==
    LET s1 == [s EXCEPT !.shut = TRUE, !.cur = 0, !.pend = <<>>, !.timer = {}] IN IF Mut = "leak" THEN s1 ELSE Disconnect(s1)

RunOne(s) ==
    LET t == Head(s.q)
        s1 == [s EXCEPT !.q = Tail(@)]
    IN  CASE t.t = "submit"    -> IF s.shut THEN s1 ELSE Check([s1 EXCEPT !.pend = Append(@, t.x)])
          [] t.t = "resolved"  -> RunResolved(s1, t)
          [] t.t = "connected" -> RunConnected(s1, t)
          [] t.t = "read"      -> RunRead(s1, t)
          [] t.t = "written"   -> RunWritten(s1, t)
          [] t.t = "timer"     -> IF s.shut \/ s.cur # t.x THEN s1 ELSE Check([DoneWith(s1, t.x, [k |-> "tmo"]) EXCEPT !.cur = 0, !.timer = {}])
          [] t.t = "close"     -> LET s2 == CloseSocket(s1) IN [s2 EXCEPT !.st = "no", !.sock = 0, !.wq = <<>>]
          [] t.t = "shut"      -> RunShut(s1)

\* -------------------------------------------------------------- the outside

Task(t, o, x, ok) == [t |-> t, g |-> o.g, x |-> x, ok |-> ok]
IoResolve(s, o) == Post([s EXCEPT !.ops = @ \ {o}], Task("resolved", o, IF s.res = 2 THEN 2 ELSE 1, s.res # 1))
IoConnect(s, o) ==
    LET s1 == [s EXCEPT !.ops = @ \ {o}] IN
    IF o.x = 1 /\ s.up THEN Out(Post([s1 EXCEPT !.g[o.g].conn = TRUE], Task("connected", o, o.x, TRUE)), [e |-> "pacc", p |-> 100 + o.g, c |-> 1, from |-> IF s.ad = "" \/ (Mut = "bindonce" /\ s.res = 2) \/ (Mut = "bindfirst" /\ o.g > 1) THEN "127.0.0.1" ELSE s.ad])
    ELSE Post(s1, Task("connected", o, o.x, FALSE))
Got(s, n, b) == IF s.g[n].left THEN s ELSE Out(s, [e |-> "prx", p |-> 100 + n, b |-> b])
\* x: ten times the request, plus one when its first half is written
IoWrite(s, o, all) ==
    LET k == o.x \div 10
        f == FrameOf(k)
        h == IF o.x % 10 = 0 THEN 1 ELSE 7
        s1 == [s EXCEPT !.ops = @ \ {o}]
    IN  IF all \/ h = 7 THEN Post(Got(s1, o.g, SubSeq(f, h, 12)), Task("written", o, o.x, TRUE))
        ELSE IF Mut = "short" THEN Post(Got(s1, o.g, SubSeq(f, 1, 6)), Task("written", o, o.x, TRUE))
        ELSE [Got(s1, o.g, SubSeq(f, 1, 6)) EXCEPT !.ops = @ \cup {Op("write", o.g, o.x + 1)}]
IoWriteFails(s, o) == Out(Post([s EXCEPT !.ops = @ \ {o}], Task("written", o, o.x, FALSE)), [e |-> "werr", c |-> 1])
CanRead(s) == {o \in s.ops : o.t = "read" /\ (s.g[o.g].pipe # <<>> \/ s.g[o.g].left)}
IoRead(s, o) ==
    LET s1 == [s EXCEPT !.ops = @ \ {o}] IN
    IF s.g[o.g].pipe # <<>> THEN Post([s1 EXCEPT !.g[o.g].pipe = Tail(@)], Task("read", o, Head(s.g[o.g].pipe), TRUE))
    ELSE Post(s1, Task("read", o, 0, FALSE))
Quiet(s) == s.q = <<>> /\ CanRead(s) = {} /\ \A o \in s.ops : o.t = "read"

Submit(s, k) == Out(Post(s, [t |-> "submit", g |-> 0, x |-> k, ok |-> TRUE]), [e |-> "sub", c |-> 1, k |-> k, u |-> 1, rq |-> Request(k), tmo |-> 1000])
PeerLeaves(s, n) == Out([s EXCEPT !.g[n].left = TRUE], [e |-> "px", p |-> 100 + n, how |-> "fin"])
PeerAnswers(s, n, k) == Out([s EXCEPT !.g[n].pipe = Append(@, k), !.g[n].got = k], [e |-> "psend", p |-> 100 + n, b |-> AnswerOf(k)])
Listens(s, up) == Out([s EXCEPT !.up = up], [e |-> "lis", c |-> 1, up |-> IF up THEN 1 ELSE 0])
Resolves(s, mode) == Out([s EXCEPT !.res = mode], [e |-> "res", mode |-> mode])
TimePasses(s) ==
    LET s1 == Out(s, [e |-> "adv", d |-> 1000]) IN
    IF s.timer = {} THEN s1 ELSE Post([s1 EXCEPT !.timer = {}], [t |-> "timer", g |-> 0, x |-> CHOOSE k \in s.timer : TRUE, ok |-> TRUE])
CallShut(s) == Out(Post(s, [t |-> "shut", g |-> 0, x |-> 0, ok |-> TRUE]), [e |-> "shut", c |-> 1])
Settled(s) == Out(s, [e |-> "settle", stalled |-> <<>>])
===============================================================================
