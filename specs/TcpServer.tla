------------------------------- MODULE TcpServer --------------------------------
(* Design of the TCP server: the acceptor, the list of connections and its limit.    *)
(* One strand runs tasks in the order in which they were posted; I/O completes        *)
(* between them. A connection object exists from the moment its accept is started.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Mut

\* q: posted tasks;  wait: peers in the kernel's backlog;  acc: the connection being accepted, 0: none
\* list: connections the server knows, the one being accepted included;  num: connections counted
\* obj: id -> [p: its peer, open: the socket is, on: it is connected];  rd: connections with a read under way
\* gone: peers that have closed;  nf: accepts that will fail;  ended: peers that have seen the end
S0(max) == [max |-> max, q |-> <<>>, wait |-> <<>>, acc |-> 0, list |-> <<>>, num |-> 0, obj |-> <<>>, rd |-> {}, gone |-> {}, nf |-> 0,
            shut |-> FALSE, listening |-> TRUE, ended |-> {}, ev |-> <<>>]
In(x, s) == \E i \in DOMAIN s : s[i] = x
Minus(s, x) == SelectSeq(s, LAMBDA y : y # x)
Post(s, t) == [s EXCEPT !.q = Append(@, t)]
Out(s, e) == [s EXCEPT !.ev = Append(@, e)]
End(s, p) == IF p = 0 \/ p \in s.ended \/ p \in s.gone THEN s ELSE Out([s EXCEPT !.ended = @ \cup {p}], [e |-> "pend", p |-> p])

StartAccept(s) == IF s.shut THEN s ELSE Post(s, [t |-> "accept", o |-> 0])
Close(s, o) == Post(s, [t |-> "close", o |-> o])
Remove(s, o) ==
    IF ~In(o, s.list) THEN s
    ELSE [Close(s, o) EXCEPT !.list = Minus(@, o), !.num = IF Mut = "nodec" THEN @ ELSE @ - 1]

RunAccept(s) ==
    IF s.shut THEN s
    ELSE LET o == Len(s.obj) + 1
         IN  [s EXCEPT !.obj = Append(@, [p |-> 0, open |-> FALSE, on |-> FALSE]), !.list = Append(@, o), !.acc = o]
RunAccepted(s, o, err) ==
    IF s.shut THEN (IF s.obj[o].open THEN End([s EXCEPT !.obj[o].open = FALSE], s.obj[o].p) ELSE s)
    ELSE IF err THEN
        CASE Mut = "errcount" -> Remove(s, o)                        \* as the original: counts down and stops accepting
          [] Mut = "errstop"  -> [s EXCEPT !.list = Minus(@, o)]
          [] Mut = "errkeep"  -> StartAccept(s)
          [] OTHER            -> StartAccept([s EXCEPT !.list = Minus(@, o)])
    ELSE LET s1 == [s EXCEPT !.num = @ + 1]
             over == IF Mut = "ge" THEN s1.num >= s1.max ELSE IF Mut = "nolimit" THEN FALSE ELSE s1.num > s1.max
             s2 == IF over THEN Remove(s1, IF Mut = "newest" THEN s1.list[Len(s1.list)] ELSE Head(s1.list)) ELSE s1
             s3 == [s2 EXCEPT !.obj[o].on = TRUE, !.rd = @ \cup {o}]
         IN  IF Mut = "once" THEN s3 ELSE StartAccept(s3)
Abort(s, o) == IF o \in s.rd THEN Post([s EXCEPT !.rd = @ \ {o}], [t |-> "read", o |-> o]) ELSE s
RunClose(s, o) ==
    IF s.obj[o].open
    THEN Remove(Abort(End([s EXCEPT !.obj[o].open = FALSE, !.obj[o].on = FALSE], s.obj[o].p), o), o)
    ELSE [s EXCEPT !.obj[o].on = FALSE]
\* the read has failed: the peer is gone, or the socket was closed
RunRead(s, o) == IF Mut = "deaf" THEN s ELSE Remove(Close(s, o), o)
RECURSIVE CloseAll(_, _)
CloseAll(s, os) == IF os = <<>> THEN s ELSE CloseAll(Close(s, Head(os)), Tail(os))
RECURSIVE EndAll(_, _)
EndAll(s, ps) == IF ps = <<>> THEN s ELSE EndAll(End(s, Head(ps)), Tail(ps))
RunShut(s) ==
    LET s1 == IF Mut = "listening" THEN [s EXCEPT !.shut = TRUE] ELSE EndAll([s EXCEPT !.shut = TRUE, !.listening = FALSE, !.wait = <<>>], s.wait)
        s2 == IF s1.acc # 0 THEN Post([s1 EXCEPT !.acc = 0], [t |-> "failed", o |-> s1.acc]) ELSE s1
    IN  IF Mut = "noclose" THEN [s2 EXCEPT !.list = <<>>] ELSE [CloseAll(s2, s2.list) EXCEPT !.list = <<>>]

RunOne(s) ==
    LET t == Head(s.q)
        s1 == [s EXCEPT !.q = Tail(@)]
    IN  CASE t.t = "accept"   -> RunAccept(s1)
          [] t.t = "accepted" -> RunAccepted(s1, t.o, FALSE)
          [] t.t = "failed"   -> RunAccepted(s1, t.o, TRUE)
          [] t.t = "close"    -> RunClose(s1, t.o)
          [] t.t = "read"     -> RunRead(s1, t.o)
          [] t.t = "shut"     -> RunShut(s1)

\* ------------------------------------------------------------- the outside

CanAccept(s) == s.acc # 0 /\ s.wait # <<>> /\ s.listening
IoAccept(s) ==
    LET p == Head(s.wait)
        s1 == [s EXCEPT !.wait = Tail(@), !.acc = 0]
    IN  IF s.nf > 0 THEN Post(End([s1 EXCEPT !.nf = @ - 1], p), [t |-> "failed", o |-> s.acc])
        ELSE Post([s1 EXCEPT !.obj[s.acc].p = p, !.obj[s.acc].open = TRUE], [t |-> "accepted", o |-> s.acc])
CanRead(s) == {o \in s.rd : s.obj[o].p \in s.gone}
IoRead(s, o) == Post([s EXCEPT !.rd = @ \ {o}], [t |-> "read", o |-> o])
Quiet(s) == s.q = <<>> /\ ~CanAccept(s) /\ CanRead(s) = {}

CallStart(s) == Out(StartAccept(s), [e |-> "srv", max |-> s.max, units |-> <<>>])
CallShut(s) == Out(Post(s, [t |-> "shut", o |-> 0]), [e |-> "shut", c |-> 0])
PeerConnects(s, p) == Out(IF s.listening THEN [s EXCEPT !.wait = Append(@, p)] ELSE s, [e |-> "conn", p |-> p, r |-> IF s.listening THEN 1 ELSE 0])
PeerLeaves(s, p) == Out([s EXCEPT !.gone = @ \cup {p}], [e |-> "px", p |-> p, how |-> "fin"])
AcceptsFail(s, n) == Out([s EXCEPT !.nf = @ + n], [e |-> "accfail", n |-> n])
Settled(s) == Out(s, [e |-> "settle", stalled |-> <<>>])
===============================================================================
