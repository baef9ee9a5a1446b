------------------------------ MODULE ServerProps -------------------------------
(* What peers, sessions and the listener may observe of one server channel.        *)
(*   start, shut, add u s / ret q    API calls; q actions are queued (-1: nested)   *)
(*   run / ran q                     one queued action runs                         *)
(*   lstart, lstop                   the channel starts / shuts down its listener   *)
(*   conn c, gone c                  a connection appears, is lost                  *)
(*   rx c b / rxend q                connection c delivers the bytes b              *)
(*   call s rq ans                   session s gets the request rq and answers ans  *)
(*   tx c b                          b is written to connection c                   *)
(*   sshut s                         session s is shut down                         *)
(*   sweep ..                        one request per quantity or address, merged    *)
(* A frame may be processed when it arrives or later; it is judged against the       *)
(* sessions that may be registered at its arrival.                                   *)
EXTENDS Codec, Integers, TLC

None == [k |-> 0]
\* reg: unit -> sessions that may be the registered one, oldest first (0: none yet)
MInit == [reg |-> <<>>, added |-> <<>>, conns |-> <<>>, starts |-> 0, lst |-> 0, lstop |-> 0, shut |-> FALSE, silent |-> FALSE, shuts |-> <<>>, judged |-> FALSE,
          atshut |-> {}, frag |-> FALSE, bad |-> {}]
Known(f, k) == k \in DOMAIN f
Ext(f, k, v) == (k :> v) @@ f
Bad(m, p) == [m EXCEPT !.bad = @ \cup p]
Cands(m, u) == IF Known(m.reg, u) THEN {m.reg[u][i] : i \in DOMAIN m.reg[u]} ELSE {0}

\* ------------------------------------------------------------------- arriving

Receive(m, ev) ==
    LET c == m.conns[ev.c]
        p == Feed(c.buf, <<>>, ev.b)
        cut == c.buf # <<>> \/ Len(p.fs) # 1 \/ p.buf # <<>>
        msgs == SelectSeq(p.fs, IsMessage)
        item(f) == [f |-> f, cands |-> Cands(m, f[7]), opt |-> m.shut, must |-> FALSE]
        items == [i \in DOMAIN msgs |-> item(msgs[i])]
    IN  IF m.silent THEN m
        ELSE [m EXCEPT !.conns[ev.c].buf = p.buf, !.conns[ev.c].q = @ \o items, !.frag = @ \/ cut]

Pdu(x) == SubSeq(x.f, 8, Len(x.f))
MaySkip(x) == x.opt \/ 0 \in x.cands \/ Drop \in RequestVerdicts(Pdu(x))

\* position of the first item of the queue q that T accepts, if only items that need no effect precede it; else 0
First(q, T(_)) ==
    LET is == {i \in DOMAIN q : T(q[i]) /\ \A j \in 1 .. i - 1 : MaySkip(q[j])}
    IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
After(q, i) == SubSeq(q, i + 1, Len(q))

\* the session that may be registered after s has been seen to be
Seen(m, u, s) ==
    IF ~Known(m.reg, u) THEN m
    ELSE LET r == m.reg[u]
             is == {i \in DOMAIN r : r[i] = s}
         IN  IF is = {} THEN m ELSE [m EXCEPT !.reg[u] = SubSeq(r, CHOOSE i \in is : \A j \in is : i <= j, Len(r))]

\* what the answer of a session becomes on the wire
Expect(x, rq, ans) ==
    LET fr(b) == Frame(At(x.f, 1), x.f[7], b) IN
    IF "def" \in DOMAIN ans THEN {fr(ExceptionBytes(rq.fn, 1))}
    ELSE IF "exc" \in DOMAIN ans THEN {fr(ExceptionBytes(rq.fn, ans.exc))}
    ELSE IF "oth" \in DOMAIN ans THEN {}
    ELSE {fr(AnswerBytes([fn |-> rq.fn] @@ ans))}

\* what names the request that a frame answers
Head4(f) == <<f[1], f[2], f[7], f[8] % 128>>

Call(m, ev) ==
    LET ok(x) == Ok(ev.rq) \in RequestVerdicts(Pdu(x))
        good(x) == ok(x) /\ ev.s \in x.cands
        at(c) == First(m.conns[c].q, good)
        idle == {c \in DOMAIN m.conns : m.conns[c].ans = {}}
        hits == {c \in idle : at(c) > 0}
    IN  IF m.silent THEN Bad(m, {"S05"})
        ELSE IF hits = {} THEN
            Bad(m, {"S02"} \cup (IF m.frag THEN {"F01"} ELSE {})
                   \cup (IF \E c \in DOMAIN m.conns : \E i \in DOMAIN m.conns[c].q : ~(\E v \in RequestVerdicts(Pdu(m.conns[c].q[i])) : v.k = "ok") THEN {"S03"} ELSE {})
                   \cup (IF idle # DOMAIN m.conns THEN {"S01"} ELSE {}))
        ELSE LET c == CHOOSE c \in hits : TRUE
                 i == at(c)
                 x == m.conns[c].q[i]
                 e == Expect(x, ev.rq, ev.ans)
             IN  Seen([m EXCEPT !.conns[c].q = After(@, i), !.conns[c].ans = e, !.conns[c].no = IF e = {} THEN @ \cup {Head4(x.f)} ELSE @], x.f[7], ev.s)

Transmit(m, ev) ==
    IF ~Known(m.conns, ev.c) THEN Bad(m, {"S01", "S05"})
    ELSE LET c == m.conns[ev.c]
             b == ev.b
         IN  IF m.silent THEN Bad(m, {"S05"})
             ELSE IF c.ans # {} THEN
                 IF b \in c.ans THEN [m EXCEPT !.conns[ev.c].ans = {}]
                 ELSE LET e == CHOOSE e \in c.ans : TRUE
                          head == Len(b) >= 8 /\ SubSeq(b, 1, 4) = SubSeq(e, 1, 4) /\ b[7] = e[7] /\ b[8] % 128 = e[8] % 128
                      IN  Bad(m, (IF head THEN {"S04"} ELSE {"S01", "S04"}))
             ELSE LET excs(x) == IF x.cands = {0} THEN {} ELSE {Frame(At(x.f, 1), x.f[7], ExceptionBytes(x.f[8], v.c)) : v \in {v \in RequestVerdicts(Pdu(x)) : v.k = "exc"}}
                      hit == First(c.q, LAMBDA x : b \in excs(x))
                      like == First(c.q, LAMBDA x : excs(x) # {})
                  IN  IF hit # 0 THEN [m EXCEPT !.conns[ev.c].q = After(@, hit)]
                      ELSE IF like # 0 THEN
                          LET e == CHOOSE e \in excs(c.q[like]) : TRUE
                          IN  Bad(m, IF Len(b) >= 8 /\ SubSeq(b, 1, 4) = SubSeq(e, 1, 4) /\ b[7] = e[7] THEN {"S03", "S04"} ELSE {"S01", "S03"})
                      ELSE Bad(m, {"S01"} \cup (IF Len(b) >= 8 /\ Head4(b) \in c.no THEN {"S04"} ELSE {}) \cup (IF \E j \in DOMAIN c.q : RequestVerdicts(Pdu(c.q[j])) = {Drop} THEN {"S03"} ELSE {})
                                          \cup (IF \E j \in DOMAIN c.q : c.q[j].cands = {0} THEN {"S02"} ELSE {}))

\* --------------------------------------------------------------- nothing to do

Idle(m) ==
    LET shutown == (IF m.lst > 0 /\ m.lstop # 1 THEN {"S05"} ELSE {})
                   \cup (IF \E s \in m.atshut : ~Known(m.shuts, s) THEN {"S05"} ELSE {})
        owed(c) == LET q == m.conns[c].q IN
                   (IF m.conns[c].ans # {} THEN {"S01", "S04"} ELSE {})
                   \cup UNION {IF MaySkip(q[i]) THEN {}
                               ELSE (IF \E v \in RequestVerdicts(Pdu(q[i])) : v.k = "ok" THEN {"S02", "S03", "S01"} ELSE {"S03", "S01"})
                                    \cup (IF m.frag THEN {"F01"} ELSE {}) : i \in DOMAIN q}
        bad == IF m.judged THEN {}
               ELSE IF m.shut THEN shutown
               ELSE UNION {owed(c) : c \in DOMAIN m.conns} \cup (IF m.starts > 0 /\ m.lst = 0 THEN {"S05"} ELSE {})
    IN  Bad([m EXCEPT !.reg = [u \in DOMAIN m.reg |-> << m.reg[u][Len(m.reg[u])] >>], !.silent = @ \/ m.shut, !.judged = m.shut,
                      !.conns = [c \in DOMAIN m.conns |-> [m.conns[c] EXCEPT !.q = <<>>, !.ans = {}, !.no = {}]], !.frag = FALSE], bad)

End(m, ev) ==
    LET m1 == IF m.shut /\ (m.lstop > 0 \/ DOMAIN m.shuts # {}) THEN [m EXCEPT !.silent = TRUE] ELSE m
    IN  IF ev.q = 0 THEN Idle(m1) ELSE m1

\* the number of units a session is registered for
Times(m, s) == Cardinality({u \in DOMAIN m.added : s \in m.added[u]})

\* ---------------------------------------------------------------------- sweeps

SweepBytes(ev, k) ==
    LET n == IF ev.ax = 1 THEN ev.a ELSE k
        a == IF ev.ax = 1 THEN k ELSE ev.a
        bc == IF ev.fn = 15 THEN BytesFor(n) ELSE 2 * n
        len == IF bc + ev.dlen < 0 THEN 0 ELSE IF bc + ev.dlen > 247 THEN 247 ELSE bc + ev.dlen
        head == << ev.fn >> \o W(a) \o W(n)
    IN  IF ev.fn >= 15 THEN head \o << (bc + ev.dbc + 256) % 256 >> \o [i \in 1 .. len |-> 0]
        ELSE IF ev.dlen < 0 THEN SubSeq(head, 1, 5 + ev.dlen) ELSE head \o [i \in 1 .. ev.dlen |-> 0]
SweepOk(ev, r, n) ==
    \E v \in RequestVerdicts(SweepBytes(ev, n)) :
        CASE v.k = "ok" -> r.calls = 1 /\ r.tx = 1 /\ r.dn = 0 /\ r.da = 0 /\ r.echo = 1 /\ "exc" \notin DOMAIN r
          [] v.k = "exc" -> r.calls = 0 /\ r.tx = 1 /\ r.echo = 1 /\ "exc" \in DOMAIN r /\ r.exc = v.c
          [] OTHER -> r.calls = 0 /\ r.tx = 0
Sweep(m, ev) ==
    IF \A i \in DOMAIN ev.res : \A n \in ev.res[i].lo .. ev.res[i].hi : SweepOk(ev, ev.res[i], n) THEN m ELSE Bad(m, {"S03"})

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e \in {"crash", "hang"} -> Bad(m, {"S01", "S02", "S03", "S04", "S05", "F01"})
           [] ev.e = "start" -> [m EXCEPT !.starts = @ + 1]
           [] ev.e = "shut" -> IF m.shut THEN m ELSE [m EXCEPT !.shut = TRUE, !.atshut = {m.reg[u][Len(m.reg[u])] : u \in {u \in DOMAIN m.reg : TRUE}} \ {0}]
           [] ev.e = "add" -> IF m.shut THEN m
                              ELSE [m EXCEPT !.reg = Ext(@, ev.u, Append(IF Known(@, ev.u) THEN @[ev.u] ELSE <<0>>, ev.s)),
                                             !.added = Ext(@, ev.u, {ev.s} \cup (IF Known(@, ev.u) THEN @[ev.u] ELSE {}))]
           [] ev.e = "ret" -> IF ev.q = 0 THEN End(m, ev) ELSE m
           [] ev.e \in {"ran", "rxend"} -> End(m, ev)
           [] ev.e = "run" -> m
           [] ev.e = "lstart" -> IF m.silent \/ m.lstop > 0 \/ m.lst >= m.starts THEN Bad(m, {"S05"}) ELSE [m EXCEPT !.lst = @ + 1]
           [] ev.e = "lstop" -> IF ~m.shut \/ m.lstop > 0 \/ m.lst = 0 THEN Bad(m, {"S05"}) ELSE [m EXCEPT !.lstop = 1]
           [] ev.e = "conn" -> [m EXCEPT !.conns = Ext(@, ev.c, [buf |-> <<>>, q |-> <<>>, ans |-> {}, no |-> {}])]
           [] ev.e = "gone" -> [m EXCEPT !.conns = [c \in DOMAIN @ \ {ev.c} |-> @[c]]]
           [] ev.e = "rx" -> Receive(m, ev)
           [] ev.e = "call" -> Call(m, ev)
           [] ev.e = "tx" -> Transmit(m, ev)
           [] ev.e = "sshut" -> LET k == IF Known(m.shuts, ev.s) THEN m.shuts[ev.s] ELSE 0 IN
                                IF ~m.shut \/ k + 1 > Times(m, ev.s) THEN Bad(m, {"S05"}) ELSE [m EXCEPT !.shuts = Ext(@, ev.s, k + 1)]
           [] ev.e = "sweep" -> Sweep(m, ev)
           [] OTHER -> m
===============================================================================
