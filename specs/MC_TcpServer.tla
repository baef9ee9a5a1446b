------------------------------ MODULE MC_TcpServer ------------------------------
(* Bounded exhaustive exploration of the server's connections: every order of peers   *)
(* that connect and leave, failing accepts, I/O, tasks and a shutdown.                 *)
EXTENDS TcpServer, Json
CONSTANTS MaxPeers, MaxOps, Max, Dump
P == INSTANCE TcpProps
VARIABLES s, m, ops, np, hist, fresh
vars == <<s, m, ops, np, hist, fresh>>
RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(P!MStep(mm, evs[i]), evs, i + 1)
Take(op, s1) == s' = [s1 EXCEPT !.ev = <<>>] /\ m' = Fold(m, s1.ev, 1) /\ hist' = Append(hist, op)
Env(op, s1) == ops < MaxOps /\ ops' = ops + 1 /\ Take(op, s1) /\ fresh' = TRUE
Own(op, s1) == UNCHANGED <<ops, np, fresh>> /\ Take(op, s1)
Connects == np < MaxPeers /\ np' = np + 1 /\ Env([o |-> "pc", p |-> np + 1], PeerConnects(s, np + 1))
Leaves == \E p \in 1 .. np : p \notin s.gone /\ p \notin s.ended /\ UNCHANGED np /\ Env([o |-> "px", p |-> p, how |-> "fin"], PeerLeaves(s, p))
Fails == s.nf < 2 /\ ~s.shut /\ UNCHANGED np /\ Env([o |-> "accfail", n |-> 1], AcceptsFail(s, 1))
Shuts == m.ss = 0 /\ UNCHANGED np /\ Env([o |-> "shut", c |-> 0], CallShut(s))
Run == s.q # <<>> /\ Own([o |-> "run", n |-> 1], RunOne(s))
Accepts == CanAccept(s) /\ Own([o |-> "io", n |-> 1], IoAccept(s))
Reads == \E o \in CanRead(s) : Own([o |-> "io", n |-> 1], IoRead(s, o))
Settles == Quiet(s) /\ fresh /\ fresh' = FALSE /\ UNCHANGED <<ops, np>> /\ Take([o |-> "settle"], Settled(s))
Init == LET s1 == CallStart(S0(Max)) IN s = [s1 EXCEPT !.ev = <<>>] /\ m = Fold(P!MInit, s1.ev, 1) /\ ops = 0 /\ np = 0 /\ hist = <<>> /\ fresh = FALSE
Next == Connects \/ Leaves \/ Fails \/ Shuts \/ Run \/ Accepts \/ Reads \/ Settles
Spec == Init /\ [][Next]_vars
View == <<s, m, np, fresh>>
Emit == (Dump /\ ops' = MaxOps /\ hist'[Len(hist')].o = "settle") => PrintT("@@" \o ToJson(hist'))
Accepted == m.bad = {}
\* stated without the monitor
OpenPeers == {s.obj[o].p : o \in {o \in DOMAIN s.obj : s.obj[o].open}}
Limit == Quiet(s) => Cardinality(OpenPeers) <= s.max
Serves == (Quiet(s) /\ ~s.shut) => (s.acc # 0 /\ s.wait = <<>>)                          \* it never stops accepting
Tidy == Quiet(s) => /\ \A o \in DOMAIN s.obj : s.obj[o].open <=> In(o, s.list) /\ o # s.acc   \* knows what it has
                    /\ (s.shut \/ s.num = Cardinality(OpenPeers))
                    /\ OpenPeers \cap s.gone = {}
Closed == (Quiet(s) /\ s.shut) => OpenPeers = {}
Newest == \A p, r \in 1 .. np : (Quiet(s) /\ p < r /\ p \in OpenPeers) => (r \in OpenPeers \/ r \in s.gone \/ r \in s.ended)
===============================================================================
