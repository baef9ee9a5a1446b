------------------------------- MODULE MC_Server --------------------------------
(* Bounded exhaustive exploration of the server channel's design; ghost variables    *)
(* state the properties independently of the monitor, which runs along.              *)
EXTENDS Server, ServerProps, Json
CONSTANTS MaxOps, MaxQ, MaxFrames, Dump
VARIABLES s, m, ops, hist, n, ncall, ntx, nsh
vars == <<s, m, ops, hist, n, ncall, ntx, nsh>>
RECURSIVE Fold(_, _, _)
Fold(mm, evs, i) == IF i > Len(evs) THEN mm ELSE Fold(MStep(mm, evs[i]), evs, i + 1)
Num(evs, k) == Len(SelectSeq(evs, LAMBDA e : e.e = k))
Step(op, s1) == /\ ops < MaxOps /\ ops' = ops + 1
                /\ s' = [s1 EXCEPT !.ev = <<>>] /\ m' = Fold(m, s1.ev, 1) /\ hist' = Append(hist, op)
                /\ ncall' = ncall + Num(s1.ev, "call") /\ ntx' = ntx + Num(s1.ev, "tx") /\ nsh' = nsh + Num(s1.ev, "sshut")
\* the k-th frame: a valid read, an invalid one, an unsupported function, a short request, a write
Pdu0(kind, k) == CASE kind = 1 -> << 3, 0, k, 0, 1 >> [] kind = 2 -> << 3, 0, k, 0, 0 >> [] kind = 3 -> << 7 >> [] kind = 4 -> << 3, 0 >> [] OTHER -> << 6, 0, k, 0, 9 >>
Fr(kind, k, u) == Frame(256 + k, u, Pdu0(kind, k))
Start == UNCHANGED n /\ Len(s.q) < MaxQ /\ Step([o |-> "start"], CallStart(s))
Shut == UNCHANGED n /\ Len(s.q) < MaxQ /\ Step([o |-> "shut"], CallShut(s))
Add == \E u \in {1, 2}, x \in {1, 2} : UNCHANGED n /\ Len(s.q) < MaxQ /\ Step([o |-> "add", u |-> u, s |-> x], CallAdd(s, u, x))
Run == s.q # <<>> /\ UNCHANGED n /\ Step([o |-> "run", n |-> 1], RunOne(s))
Conn == \E c \in {1, 2} : c \notin DOMAIN s.bufs /\ (c = 2 => 1 \in DOMAIN s.bufs) /\ m.lst > 0 /\ UNCHANGED n /\ Step([o |-> "conn", c |-> c], Connect(s, c))
Whole == \E c \in DOMAIN s.bufs, kind \in 1 .. 5, u \in {1, 2} : /\ n < MaxFrames /\ s.rest[c] = <<>> /\ n' = n + 1
            /\ Step([o |-> "rx", c |-> c, b |-> Fr(kind, n, u)], Deliver(s, c, Fr(kind, n, u)))
Half == \E c \in DOMAIN s.bufs, u \in {1, 2} : /\ n < MaxFrames /\ s.rest[c] = <<>> /\ n' = n + 1
            /\ Step([o |-> "rx", c |-> c, b |-> SubSeq(Fr(1, n, u), 1, 8)], [Deliver(s, c, SubSeq(Fr(1, n, u), 1, 8)) EXCEPT !.rest[c] = SubSeq(Fr(1, n, u), 9, 12)])
Rest == \E c \in DOMAIN s.bufs : /\ s.rest[c] # <<>> /\ UNCHANGED n
            /\ Step([o |-> "rx", c |-> c, b |-> s.rest[c]], [Deliver(s, c, s.rest[c]) EXCEPT !.rest[c] = <<>>])
Init == s = S0 /\ m = MInit /\ ops = 0 /\ hist = <<>> /\ n = 0 /\ ncall = 0 /\ ntx = 0 /\ nsh = 0
Next == Start \/ Shut \/ Add \/ Run \/ Conn \/ Whole \/ Half \/ Rest
Spec == Init /\ [][Next]_vars
View == <<s, m, n, ncall, ntx, nsh>>
Emit == Dump => PrintT("@@" \o ToJson(hist'))
Accepted == m.bad = {}
AtMostOne == ncall <= n /\ ntx <= n                                                   \* S01, S02
ShutOnce == nsh <= 2                                                                  \* S05
Silence == [][s.shut => (s'.shut /\ ncall' = ncall /\ ntx' = ntx /\ nsh' = nsh)]_vars   \* S05
===============================================================================
