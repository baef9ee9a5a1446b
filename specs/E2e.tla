---------------------------------- MODULE E2e ----------------------------------
(* Design of the whole: clients that send one request at a time, connections that     *)
(* fail, and a server that carries the requests out on its database one by one.        *)
EXTENDS Db
CONSTANT Mut
P == INSTANCE E2eProps

Clients == {1, 2}
\* db: contents;  q, cur, conn: client -> waiting requests, current request, connection
\* g: connection -> [c: its client, up: requests under way, down: answers under way, open]
\* n: request -> how often it has taken effect;  late: effects still to come;  cache: what was read last
S0 == [db |-> [EmptyDb EXCEPT !["hr"] = (1 :> 0) @@ (2 :> 0)], rq |-> <<>>, q |-> [c \in Clients |-> <<>>], cur |-> [c \in Clients |-> 0],
       conn |-> [c \in Clients |-> 0], g |-> <<>>, n |-> <<>>, ok |-> {}, late |-> <<>>, cache |-> <<>>, ev |-> <<>>]
Out(s, e) == [s EXCEPT !.ev = Append(@, e)]
Told(s, k, r) == Out(s, [e |-> "done", k |-> k, r |-> r])

Next1(s, c) ==
    IF s.cur[c] # 0 \/ s.q[c] = <<>> THEN s
    ELSE LET k == Head(s.q[c])
             s1 == [s EXCEPT !.cur[c] = k, !.q[c] = Tail(@)]
             s2 == IF s1.conn[c] # 0 THEN s1 ELSE [s1 EXCEPT !.g = Append(@, [c |-> c, up |-> <<>>, down |-> <<>>, open |-> TRUE]), !.conn[c] = Len(s1.g) + 1]
         IN  [s2 EXCEPT !.g[s2.conn[c]].up = Append(@, k)]
Submit(s, c, k, rq) ==
    Next1(Out([s EXCEPT !.q[c] = Append(@, k), !.rq = Append(@, rq), !.n = Append(@, 0)], [e |-> "sub", c |-> c, k |-> k, u |-> 1, rq |-> rq]), c)

CanServe(s) == {n \in DOMAIN s.g : s.g[n].up # <<>>}
Write1(rq) == [rq EXCEPT !.vs = <<rq.vs[1]>>]
Write2(rq) == [fn |-> 16, a |-> rq.a + 1, vs |-> <<rq.vs[2]>>]
Serve(s, n) ==
    LET k == Head(s.g[n].up)
        rq == s.rq[k]
        split == Mut = "split" /\ rq.fn = 16
        early == Mut = "early" /\ rq.fn # 3
        e == P!Effect(s.db, rq)
        res == IF Mut = "cache" /\ rq.fn = 3 /\ s.cache # <<>> THEN s.cache[1] ELSE e[2]
        s1 == [s EXCEPT !.g[n].up = IF Mut = "twice" /\ s.n[k] = 0 THEN @ ELSE Tail(@),
                        !.n[k] = @ + 1,
                        !.db = IF early THEN @ ELSE IF split THEN P!Effect(@, Write1(rq))[1] ELSE e[1],
                        !.late = IF early THEN Append(@, rq) ELSE IF split THEN Append(@, Write2(rq)) ELSE @,
                        !.cache = IF rq.fn = 3 THEN <<res>> ELSE @]
        to == IF Mut = "misroute" /\ Len(s.g) > 1 /\ s.conn[3 - s.g[n].c] # 0 THEN s.conn[3 - s.g[n].c] ELSE n
    IN  IF s1.g[to].open THEN [s1 EXCEPT !.g[to].down = Append(@, [k |-> k, r |-> res])] ELSE s1
Late(s) == [s EXCEPT !.db = P!Effect(@, Head(s.late))[1], !.late = Tail(@)]

CanDeliver(s) == {n \in DOMAIN s.g : s.g[n].open /\ s.g[n].down # <<>>}
Deliver(s, n) ==
    LET a == Head(s.g[n].down)
        c == s.g[n].c
        s1 == [s EXCEPT !.g[n].down = Tail(@)]
        mine == IF Mut \in {"anyanswer", "misroute"} THEN s.cur[c] # 0 ELSE s.cur[c] = a.k
    IN  IF mine THEN Next1([Told(s1, s.cur[c], a.r) EXCEPT !.cur[c] = 0, !.ok = @ \cup {s.cur[c]}], c) ELSE s1

RECURSIVE FailAll(_, _)
FailAll(s, ks) == IF ks = <<>> THEN s ELSE FailAll(Told(s, Head(ks), [k |-> "conn"]), Tail(ks))
Cut(s, n) ==
    LET c == s.g[n].c
        s1 == [s EXCEPT !.g[n].open = FALSE, !.g[n].down = <<>>, !.conn[c] = 0]
    IN  IF Mut = "resend" /\ s.cur[c] # 0 THEN Next1([s1 EXCEPT !.q[c] = <<s.cur[c]>> \o @, !.cur[c] = 0], c)
        ELSE LET s2 == FailAll([s1 EXCEPT !.q[c] = <<>>], s.q[c])
             IN  IF s.cur[c] = 0 THEN s2 ELSE [Told(s2, s.cur[c], [k |-> "conn"]) EXCEPT !.cur[c] = 0]
\* what a dead connection still holds may be lost
Lose(s, n) == [s EXCEPT !.g[n].up = <<>>]
Timeout(s, c) == Next1([Told(s, s.cur[c], [k |-> "tmo"]) EXCEPT !.cur[c] = 0], c)
Quiet(s) == CanServe(s) = {} /\ CanDeliver(s) = {} /\ s.late = <<>>
Snap(s) == Out(s, [e |-> "snap", p |-> <<<<"hr", 1, s.db["hr"][1]>>, <<"hr", 2, s.db["hr"][2]>>>>])
===============================================================================
