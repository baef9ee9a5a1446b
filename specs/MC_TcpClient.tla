------------------------------ MODULE MC_TcpClient ------------------------------
(* Bounded exhaustive exploration of a client channel over its connections: requests, *)
(* answers, peers that leave, refuse, or cannot be found, partial and failing writes,  *)
(* timeouts and a shutdown, in every order with the strand's tasks.                     *)
EXTENDS TcpClient, Json
CONSTANTS MaxReq, MaxOps, MaxEnv, Dump
P == INSTANCE TcpProps
VARIABLES s, m, ops, nr, env, fin, hist, fresh
vars == <<s, m, ops, nr, env, fin, hist, fresh>>
RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(P!MStep(mm, evs[i]), evs, i + 1)
Dones(evs) == [i \in 1 .. Len(SelectSeq(evs, LAMBDA e : e.e = "done")) |-> SelectSeq(evs, LAMBDA e : e.e = "done")[i].k]
Take(op, s1) == /\ s' = [s1 EXCEPT !.ev = <<>>] /\ m' = Fold(m, s1.ev, 1) /\ hist' = Append(hist, op)
                /\ fin' = fin \o Dones(s1.ev)
Env(op, s1) == ops < MaxOps /\ ops' = ops + 1 /\ Take(op, s1) /\ fresh' = TRUE
Hostile(op, s1) == env < MaxEnv /\ env' = env + 1 /\ UNCHANGED nr /\ Env(op, s1)
Own(op, s1) == UNCHANGED <<ops, nr, env, fresh>> /\ Take(op, s1)
Submits == nr < MaxReq /\ nr' = nr + 1 /\ UNCHANGED env
           /\ Env([o |-> "sub", c |-> 1, k |-> nr + 1, u |-> 1, rq |-> Request(nr + 1), tmo |-> 1000], Submit(s, nr + 1))
Has(n, k) == k \in DOMAIN m.reqs /\ m.reqs[k].p = 100 + n
Answers == \E n \in DOMAIN s.g, k \in 1 .. nr : Has(n, k) /\ ~s.g[n].left /\ s.g[n].open /\ s.g[n].got < k
           /\ UNCHANGED <<nr, env>> /\ Env([o |-> "ans", c |-> 1], PeerAnswers(s, n, k))
Leaves == \E n \in DOMAIN s.g : s.g[n].conn /\ s.g[n].open /\ ~s.g[n].left /\ Hostile([o |-> "px", c |-> 1, how |-> "fin"], PeerLeaves(s, n))
Lis == Hostile([o |-> "lis", c |-> 1, up |-> IF s.up THEN 0 ELSE 1], Listens(s, ~s.up))
Res == \E r \in {0, 1, 2} \ {s.res} : Hostile([o |-> "res", mode |-> r], Resolves(s, r))
Time == s.timer # {} /\ Hostile([o |-> "adv", d |-> 1000], TimePasses(s))
Shuts == m.cli[1].shut = 0 /\ Hostile([o |-> "shut", c |-> 1], CallShut(s))
Run == s.q # <<>> /\ Own([o |-> "run", n |-> 1], RunOne(s))
IO == [o |-> "io", n |-> 1]
Ios == \E o \in s.ops : CASE o.t = "resolve" -> Own(IO, IoResolve(s, o))
                          [] o.t = "connect" -> Own(IO, IoConnect(s, o))
                          [] o.t = "write"   -> \E all \in BOOLEAN : (all \/ o.x % 10 = 0) /\ Own(IO, IoWrite(s, o, all))
                          [] OTHER           -> o \in CanRead(s) /\ Own(IO, IoRead(s, o))
WriteFails == \E o \in s.ops : o.t = "write" /\ Hostile([o |-> "lim", c |-> 1, err |-> 32], IoWriteFails(s, o))
Settles == Quiet(s) /\ fresh /\ fresh' = FALSE /\ UNCHANGED <<ops, nr, env>> /\ Take([o |-> "settle"], Settled(s))
Start(ad) == [e |-> "cli", c |-> 1, adapter |-> ad, up |-> 1, named |-> 1, badad |-> 0, to |-> 0]
Init == /\ \E ad \in {"", "127.9.8.7"} : s = [S0 EXCEPT !.ad = ad] /\ m = P!MStep(P!MInit, Start(ad)) /\ hist = <<[o |-> "cli", c |-> 1, adapter |-> ad]>>
        /\ ops = 0 /\ nr = 0 /\ env = 0 /\ fin = <<>> /\ fresh = FALSE
Next == Submits \/ Answers \/ Leaves \/ Lis \/ Res \/ Time \/ Shuts \/ Run \/ Ios \/ WriteFails \/ Settles
Spec == Init /\ [][Next]_vars
View == <<s, m, nr, env, fin, fresh>>
Emit == (Dump /\ ops' = MaxOps /\ hist'[Len(hist')].o = "settle") => PrintT("@@" \o ToJson(hist'))
Accepted == m.bad = {}
\* stated without the monitor
Once == \A i, j \in DOMAIN fin : i # j => fin[i] # fin[j]
OneSocket == Cardinality({n \in DOMAIN s.g : s.g[n].open}) <= 1
Known == \A n \in DOMAIN s.g : s.g[n].open => (n = s.sock \/ s.shut)
NoLimbo == (Quiet(s) /\ ~s.shut /\ s.cur # 0) => (s.st = "up" /\ s.wq = <<>> /\ Has(s.sock, s.cur))   \* what is not done waits for its answer
Gone == (Quiet(s) /\ s.shut) => \A n \in DOMAIN s.g : ~s.g[n].open
===============================================================================
