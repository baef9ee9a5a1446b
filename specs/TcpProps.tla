-------------------------------- MODULE TcpProps --------------------------------
(* What the peers of one manager's TCP server and client channels, and its user,     *)
(* may observe.                                                                       *)
(*   srv max          the server channel is created and started                       *)
(*   conn p r         peer p connects to the server (r = 1: the kernel accepts)        *)
(*   cli c adapter    client channel c is created; lis c up, res mode, sysfail: the    *)
(*                    environment of its connection attempts changes                   *)
(*   sub c k u rq tmo request k is submitted to client channel c;  done k r            *)
(*   pacc p c from    client channel c connects to its peer: connection p              *)
(*   psend p b, prx p b  the peer of connection p sends, receives bytes                *)
(*   px p how         the peer closes (fin), resets (rst) or half-closes p             *)
(*   pend p           the peer sees the library end connection p                       *)
(*   lim free, werr   the library's writes on a connection are limited; a write fails  *)
(*   call u           the session of unit u is called;   adv d: time passes            *)
(*   shut c (0: the server), mshut    shutdown of a channel, of the manager            *)
(*   probe n r        r of n further servers of the manager accept a connection          *)
(*   settle stalled   nothing is left to do, all peers but those in stalled have read  *)
EXTENDS Codec, Integers, TLC

\* the server's connections: open ones in the order of their arrival, waiting ones, and the peers that have gone.
\* nf: accepts that will fail. More than one configuration is possible while the server has not settled.
Cfg0 == [open |-> <<>>, wait |-> <<>>, gone |-> {}, nf |-> 0]
MInit == [max |-> 0, cfgs |-> {Cfg0}, units |-> {}, ss |-> 0, peers |-> <<>>, cli |-> <<>>, conns |-> <<>>, reqs |-> <<>>, ord |-> <<>>,
          now |-> 0, fails |-> 0, settled |-> 0, res |-> 0, sys |-> FALSE, ms |-> 0, ns |-> 0, bad |-> {}]
Ext(f, k, v) == (k :> v) @@ f
Bad(m, p) == [m EXCEPT !.bad = @ \cup p]
In(x, s) == \E i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
All(s) == {s[i] : i \in DOMAIN s}

\* --------------------------------------------------------------- the server

Accepted1(g, max) ==
    LET p == Head(g.wait) IN
    IF g.nf > 0 THEN [g EXCEPT !.wait = Tail(@), !.nf = @ - 1]
    ELSE LET o == Append(g.open, p) IN [g EXCEPT !.wait = Tail(@), !.open = IF Len(o) > max THEN Tail(o) ELSE o]
Noticed(g, p) == [g EXCEPT !.open = Without(@, p)]
Nexts(g, max) == (IF g.wait = <<>> THEN {} ELSE {Accepted1(g, max)}) \cup {Noticed(g, p) : p \in g.gone \cap All(g.open)}
RECURSIVE Closure(_, _, _)
Closure(todo, done, max) ==
    IF todo = {} THEN done
    ELSE LET succ == UNION {Nexts(g, max) : g \in todo} IN Closure(succ \ (done \cup todo), done \cup todo, max)
Final(cfgs, max) == {g \in Closure(cfgs, {}, max) : Nexts(g, max) = {}}

\* what a session answers is a function of its unit and the request (see h_tcp.cpp)
AnswerTo(u, rq) ==
    IF rq.a >= 60000 THEN ExceptionBytes(rq.fn, IF rq.a % 2 = 1 THEN 2 ELSE 4)
    ELSE IF rq.a >= 59000 THEN <<>>
    ELSE AnswerBytes(CASE rq.fn \in BitReads -> [fn |-> rq.fn, vs |-> [i \in 1 .. rq.n |-> (u + rq.a + i - 1) % 2]]
                       [] rq.fn \in RegReads -> [fn |-> rq.fn, vs |-> [i \in 1 .. rq.n |-> (u * 257 + rq.a + i - 1) % 65536]]
                       [] rq.fn \in Singles -> [fn |-> rq.fn, a |-> rq.a, x |-> rq.x]
                       [] OTHER -> [fn |-> rq.fn, a |-> rq.a, n |-> Len(rq.vs)])
\* the answers that a frame may get; a request that is malformed in more than one way may get different ones
ReplyOf(f, v) ==
    LET b == CASE v.k = "drop" -> <<>> [] v.k = "exc" -> ExceptionBytes(f[8], v.c) [] OTHER -> AnswerTo(f[7], v.rq)
    IN  IF b = <<>> THEN <<>> ELSE Frame(At(f, 1), f[7], b)
Reply(units, f) ==
    IF ~IsMessage(f) \/ f[7] \notin units THEN {<<>>}
    ELSE {ReplyOf(f, v) : v \in RequestVerdicts(SubSeq(f, 8, Len(f)))}
RECURSIVE Replies(_, _, _)
Replies(units, want, fs) ==
    IF fs = <<>> THEN want
    ELSE LET rs == Reply(units, Head(fs)) IN Replies(units, {w \o r : w \in want, r \in rs}, Tail(fs))

PeerSend(m, p, b) ==
    LET x == m.peers[p]
        f == Feed(x.buf, <<>>, b)
    IN  [m EXCEPT !.peers[p].buf = f.buf, !.peers[p].want = Replies(m.units, @, f.fs)]
Others(m) == IF Cardinality(DOMAIN m.peers) > 1 THEN {"T04"} ELSE {}
PeerReceive(m, p, b) ==
    LET fit == {w \in m.peers[p].want : Len(b) <= Len(w) /\ SubSeq(w, 1, Len(b)) = b} IN
    IF m.ss = 2 THEN Bad(m, {"M01", "S05"})
    ELSE IF fit # {} THEN [m EXCEPT !.peers[p].want = {SubSeq(w, Len(b) + 1, Len(w)) : w \in fit}, !.peers[p].got = TRUE]
    ELSE Bad(m, {"T02"} \cup Others(m))

SettleServer(m, stalled) ==
    IF m.max = 0 \/ m.ss = 2 THEN m
    ELSE LET fin == Final(m.cfgs, m.max)
             seen(p) == p \notin stalled /\ ~m.peers[p].px
             ended(p) == m.peers[p].ended
             keep == {g \in fin : \A p \in DOMAIN m.peers : seen(p) => (ended(p) <=> ~In(p, g.open))}
             surely(p) == \A g \in fin : In(p, g.open)
             lost == {p \in DOMAIN m.peers : seen(p) /\ ended(p) /\ surely(p)}
             starved == {p \in DOMAIN m.peers : seen(p) /\ ~ended(p) /\ surely(p) /\ m.peers[p].free /\ <<>> \notin m.peers[p].want}
         IN  IF m.ss = 1 THEN
                 LET open == {p \in DOMAIN m.peers : seen(p) /\ ~ended(p)}
                 IN  Bad([m EXCEPT !.ss = 2], IF open = {} THEN {} ELSE IF m.ms > 0 THEN {"M01"} ELSE {"S05"})
             ELSE IF keep = {} THEN Bad(m, {"T01"} \cup (IF lost # {} THEN Others(m) ELSE {}))
             ELSE IF starved # {} THEN Bad(m, (IF \E p \in starved : ~m.peers[p].got THEN {"T01"} ELSE {}) \cup {"T02"} \cup Others(m))
             ELSE [m EXCEPT !.cfgs = {[open |-> g.open, wait |-> <<>>, gone |-> {}, nf |-> g.nf] : g \in keep},
                                 !.peers = [p \in DOMAIN @ |-> IF seen(p) /\ ~ended(p) /\ surely(p) /\ @[p].free THEN [@[p] EXCEPT !.want = {<<>>}] ELSE @[p]]]

\* -------------------------------------------------------------- the clients

Live(m, c) == {p \in DOMAIN m.conns : m.conns[p].c = c /\ m.conns[p].live}
Unfinished(m, c) == SelectSeq(m.ord[c], LAMBDA k : ~m.reqs[k].done)
Failing(m, c) == m.cli[c].up = 0 \/ m.cli[c].badad \/ (m.res = 1 /\ m.cli[c].named)
Blocked(m, c) == m.cli[c].up = 2 \/ ~m.cli[c].free
Pos(s, k) == CHOOSE i \in DOMAIN s : s[i] = k

\* the requests that frame f of client c may be
Matches(m, c, f) == {k \in All(m.ord[c]) : m.reqs[k].u = f[7] /\ RequestBytes(m.reqs[k].rq) = SubSeq(f, 8, Len(f))}
RECURSIVE Frames(_, _, _)
Frames(m, p, fs) ==
    IF fs = <<>> \/ m.bad # {} THEN m
    ELSE LET f == Head(fs)
             c == m.conns[p].c
             ks == IF IsMessage(f) THEN Matches(m, c, f) ELSE {}
         IN  IF ks = {} THEN Bad(m, {"T02"})
             ELSE LET k == CHOOSE k \in ks : TRUE
                      before == {j \in All(m.ord[c]) : m.reqs[j].p # 0 /\ Pos(m.ord[c], j) >= Pos(m.ord[c], k)}
                      failed == m.reqs[k].dn >= 0 /\ m.conns[p].ns > m.reqs[k].dn    \* it was over before this connection
                  IN  IF m.reqs[k].p # 0 \/ failed THEN Bad(m, {"T03"})
                      ELSE IF before # {} THEN Bad(m, {"T02"})
                      ELSE Frames([m EXCEPT !.reqs[k].p = p, !.reqs[k].tid = At(f, 1)], p, Tail(fs))
ConnReceive(m, p, b) ==
    LET f == Feed(m.conns[p].buf, <<>>, b)
        c == m.conns[p].c
    IN  IF m.cli[c].shut = 2 THEN Bad(m, {"M01", "C06"})
        ELSE Frames([m EXCEPT !.conns[p].buf = f.buf], p, f.fs)

\* an answer that the peer of connection p sends
RECURSIVE Answered(_, _, _)
Answered(m, p, fs) ==
    IF fs = <<>> THEN m
    ELSE LET f == Head(fs)
             ks == IF IsMessage(f) THEN {k \in DOMAIN m.reqs : m.reqs[k].p = p /\ m.reqs[k].u = f[7] /\ m.reqs[k].tid = At(f, 1) /\ ~m.reqs[k].done} ELSE {}
         IN  IF ks = {} THEN Answered(m, p, Tail(fs))
             ELSE LET k == CHOOSE k \in ks : TRUE
                  IN  Answered([m EXCEPT !.reqs[k].exp = @ \cup {AnswerVerdict(m.reqs[k].rq, SubSeq(f, 8, Len(f)))}], p, Tail(fs))
ConnSend(m, p, b) ==
    LET f == Feed(m.conns[p].abuf, <<>>, b) IN Answered([m EXCEPT !.conns[p].abuf = f.buf], p, f.fs)

\* fails: the failures that cannot concern the request: those that were over when nothing was left to do, and those
\* before a failure of the channel's connection was reported, because what is submitted after that is for another one
Submit(m, ev) ==
    LET x == m.cli[ev.c]
        r == [c |-> ev.c, u |-> ev.u, rq |-> ev.rq, tmo |-> ev.tmo, at |-> m.now, fails |-> IF x.over > m.settled THEN x.over ELSE m.settled,
              done |-> FALSE, p |-> 0, tid |-> 0, dn |-> -1, exp |-> {}]
        m1 == [m EXCEPT !.reqs = Ext(@, ev.k, r)]
    IN  IF x.shut > 0 THEN m1 ELSE [m1 EXCEPT !.ord[ev.c] = Append(@, ev.k)]

Done(m, ev) ==
    LET r == m.reqs[ev.k]
        c == r.c
        cause == m.fails > r.fails \/ m.sys \/ (Failing(m, c) /\ Live(m, c) = {}) \/ (m.cli[c].up = 2)
        m1 == [m EXCEPT !.reqs[ev.k].done = TRUE, !.reqs[ev.k].dn = IF ev.r.k = "conn" THEN m.ns ELSE -1,
                        !.cli[c].over = IF ev.r.k = "conn" THEN m.fails ELSE @]
    IN  IF m.cli[c].shut = 2 THEN Bad(m, {"M01", "C06"})
        ELSE IF r.done THEN Bad(m, {"T03"})
        ELSE CASE ev.r.k = "conn" -> IF cause THEN m1 ELSE Bad(m, {"T03"} \cup (IF m.cli[c].adapter # "" \/ m.cli[c].named THEN {"T05"} ELSE {}))
               [] ev.r.k = "tmo" -> IF m.now - r.at >= r.tmo THEN m1 ELSE Bad(m, {"T03"})
               [] OTHER -> IF m.cli[c].to = 1 THEN m1 ELSE IF ev.r \in r.exp THEN m1 ELSE Bad(m, {"T03", "T02"})

SettleClient(m, c, stalled) ==
    LET x == m.cli[c]
        un == Unfinished(m, c)
        live == Live(m, c)
        dumb == \E p \in DOMAIN m.conns : m.conns[p].c = c /\ p \in stalled
        k == Head(un)
        r == m.reqs[k]
        half == {p \in DOMAIN m.conns : m.conns[p].c = c /\ m.conns[p].half /\ ~m.conns[p].ended /\ p \notin stalled}
        answered == {j \in All(un) : m.reqs[j].exp # {} /\ m.reqs[j].p \in live}
    IN  IF x.shut = 2 THEN {}
        ELSE IF x.shut = 1 THEN (IF live \ stalled # {} THEN (IF m.ms > 0 THEN {"M01"} ELSE {"C06"}) ELSE {})
        ELSE (IF half # {} THEN {"T03"} ELSE {})
             \cup (IF Cardinality(live \ stalled) > 1 THEN {"T03"} ELSE {})
             \cup (IF answered # {} THEN {"T03"} ELSE {})
             \cup (IF un = <<>> \/ x.to = 1 \/ dumb \/ Blocked(m, c) THEN {}
                   ELSE IF r.p \in live THEN {}
                   ELSE IF r.p = 0 /\ live # {} THEN {"T03", "T02"}
                   ELSE {"T03"})

Settle(m, ev) ==
    LET stalled == All(ev.stalled)
        m1 == SettleServer(m, stalled)
        b == UNION {SettleClient(m, c, stalled) : c \in DOMAIN m.cli}
    IN  Bad([m1 EXCEPT !.settled = m.fails, !.ns = @ + 1, !.cli = [c \in DOMAIN @ |-> [@[c] EXCEPT !.shut = IF @ > 0 THEN 2 ELSE 0]], !.ms = IF @ > 0 THEN 2 ELSE 0], b)

\* ------------------------------------------------------------------- steps

Failed(m) == [m EXCEPT !.fails = @ + 1]
End(m, p) == IF p \in DOMAIN m.peers THEN [m EXCEPT !.peers[p].ended = TRUE]
             ELSE [m EXCEPT !.conns[p].ended = TRUE, !.conns[p].live = FALSE]
Leave(m, p, how) ==
    IF p \in DOMAIN m.peers
    THEN [m EXCEPT !.peers[p].px = (how # "half"), !.cfgs = {[g EXCEPT !.gone = @ \cup {p}] : g \in m.cfgs}]
    ELSE Failed([m EXCEPT !.conns[p].live = FALSE, !.conns[p].half = (how = "half"), !.conns[p].ended = @ \/ how # "half"])
Limit(m, ev) ==
    IF "c" \in DOMAIN ev THEN [m EXCEPT !.cli[ev.c].free = (ev.free = 1)]
    ELSE IF ev.p \notin DOMAIN m.peers THEN m
    ELSE [m EXCEPT !.peers[ev.p].free = (ev.free = 1)]
WriteFails(m, ev) ==
    IF "c" \in DOMAIN ev THEN Failed(m)
    ELSE [m EXCEPT !.cfgs = {[g EXCEPT !.gone = @ \cup {ev.p}] : g \in @}]
ShutAll(m) == [m EXCEPT !.ms = IF @ = 0 THEN 1 ELSE @, !.ss = IF m.max > 0 /\ @ = 0 THEN 1 ELSE @,
                        !.cli = [c \in DOMAIN @ |-> [@[c] EXCEPT !.shut = IF @ = 0 THEN 1 ELSE @]]]

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e \in {"crash", "hang", "spin"} -> Bad(m, {"T01", "T02", "T03", "T04", "T05", "M01", "C06", "S05"})
           [] ev.e = "srv" -> [m EXCEPT !.max = ev.max, !.units = All(ev.units)]
           [] ev.e = "conn" -> IF ev.r = 0 THEN (IF m.max > 0 /\ m.ss = 0 THEN Bad(m, {"T01"}) ELSE m)
                               ELSE IF m.ss = 2 THEN Bad(m, IF m.ms > 0 THEN {"M01"} ELSE {"S05"})
                               ELSE [m EXCEPT !.peers = Ext(@, ev.p, [buf |-> <<>>, want |-> {<<>>}, got |-> FALSE, px |-> FALSE, ended |-> FALSE, free |-> TRUE]),
                                              !.cfgs = {[g EXCEPT !.wait = Append(@, ev.p)] : g \in @}]
           [] ev.e = "accfail" -> [m EXCEPT !.cfgs = {[g EXCEPT !.nf = @ + ev.n] : g \in Closure(@, {}, m.max)}]
           [] ev.e = "cli" -> [m EXCEPT !.cli = Ext(@, ev.c, [up |-> ev.up, adapter |-> ev.adapter, badad |-> ev.badad = 1, named |-> ev.named = 1, to |-> ev.to, shut |-> 0, free |-> TRUE, over |-> 0]),
                                        !.ord = Ext(@, ev.c, <<>>)]
           [] ev.e = "sub" -> Submit(m, ev)
           [] ev.e = "done" -> Done(m, ev)
           [] ev.e = "pacc" -> LET x == m.cli[ev.c] IN
                               IF x.shut = 2 THEN Bad(m, {"M01", "C06"})
                               ELSE IF x.badad \/ (x.adapter # "" /\ ev.from # x.adapter) THEN Bad(m, {"T05"})
                               ELSE [m EXCEPT !.conns = Ext(@, ev.p, [c |-> ev.c, buf |-> <<>>, abuf |-> <<>>, live |-> TRUE, half |-> FALSE, ended |-> FALSE, ns |-> m.ns])]
           [] ev.e = "psend" -> IF ev.p \in DOMAIN m.peers THEN PeerSend(m, ev.p, ev.b) ELSE ConnSend(m, ev.p, ev.b)
           [] ev.e = "prx" -> IF ev.p \in DOMAIN m.peers THEN PeerReceive(m, ev.p, ev.b) ELSE ConnReceive(m, ev.p, ev.b)
           [] ev.e = "px" -> Leave(m, ev.p, ev.how)
           [] ev.e = "pend" -> End(m, ev.p)
           [] ev.e = "lim" -> Limit(m, ev)
           [] ev.e = "werr" -> WriteFails(m, ev)
           [] ev.e = "lis" -> LET m1 == [m EXCEPT !.cli[ev.c].up = ev.up] IN IF ev.up = 1 /\ m.cli[ev.c].up = 1 THEN m1 ELSE Failed(m1)
           [] ev.e = "res" -> LET m1 == [m EXCEPT !.res = ev.mode] IN IF ev.mode = 1 \/ m.res = 1 THEN Failed(m1) ELSE m1
           [] ev.e = "sysfail" -> [m EXCEPT !.sys = TRUE]
           [] ev.e = "adv" -> [m EXCEPT !.now = @ + ev.d]
           [] ev.e = "call" -> IF m.ss = 2 THEN Bad(m, IF m.ms > 0 THEN {"M01"} ELSE {"S05"}) ELSE m
           [] ev.e = "shut" -> IF ev.c = 0 THEN [m EXCEPT !.ss = IF m.max > 0 /\ @ = 0 THEN 1 ELSE @] ELSE [m EXCEPT !.cli[ev.c].shut = IF @ = 0 THEN 1 ELSE @]
           [] ev.e = "mshut" -> ShutAll(m)
           [] ev.e = "probe" -> IF m.ms = 2 /\ ev.r > 0 THEN Bad(m, {"M01"})
                                ELSE IF m.ms = 0 /\ ev.r # ev.n THEN Bad(m, {"T01"}) ELSE m
           [] ev.e = "settle" -> Settle(m, ev)
           [] OTHER -> m
===============================================================================
