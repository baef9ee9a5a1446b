------------------------------- MODULE MC_DbLin -------------------------------
(* The locking design of InMemoryDatabase: an operation acquires the mutex, does *)
(* its work cell by cell, releases the mutex and returns. Every interleaving of   *)
(* the operations of Prog is explored; the monitor must always find an order.     *)
(* With UseLock = FALSE (the design without the mutex) it must not: that run      *)
(* shows that the monitor can tell the difference.                                *)
EXTENDS DbLin
CONSTANTS UseLock, Programs

\* an operation as the sequence of single-cell steps the code performs while holding the mutex
\* kinds: rd n cells, wm (validate all, then write each), add (test, insert), txn (its steps)
VARIABLES prog, pc, db, lock, regs, mon
vars == <<prog, pc, db, lock, regs, mon>>

Rd(a, n) == [e |-> "rd", t |-> "hr", a |-> a, n |-> n]
Wm(a, vs) == [e |-> "wm", t |-> "hr", a |-> a, vs |-> vs]
Ad(a, v) == [e |-> "add", t |-> "hr", a |-> a, v |-> v]
Tx(ops) == [e |-> "txn", ops |-> ops]
G(a) == [o |-> "get", t |-> "hr", a |-> a, v |-> 0]
S(a, v) == [o |-> "set", t |-> "hr", a |-> a, v |-> v]

Pool == { Rd(1, 2), Rd(2, 2), Wm(1, <<5, 6>>), Wm(2, <<7, 8>>), Ad(3, 9), Tx(<<G(1), S(2, 4), G(1)>>), Tx(<<S(1, 3), S(2, 3)>>), Tx(<<G(3), G(3)>>) }
Threads == 1 .. 3
Start == [EmptyDb EXCEPT !["hr"] = (1 :> 0) @@ (2 :> 0)]

NSteps(op) == CASE op.e = "rd" -> op.n [] op.e = "wm" -> 1 + Len(op.vs) [] op.e = "add" -> 2 [] OTHER -> Len(op.ops)

Init == /\ prog \in (CASE Programs = 2 -> [1 .. 2 -> Pool] [] OTHER -> [1 .. 3 -> Pool])
        /\ pc = [u \in DOMAIN prog |-> 0]      \* 0 not begun, 1 waiting for the lock, 2.. working, then -1 released, -2 returned
        /\ db = Start /\ lock = 0
        /\ regs = [u \in DOMAIN prog |-> <<>>]
        /\ mon = [LInit EXCEPT !.cfgs = {[db |-> Start, done |-> {}]}]

Begin(u) == /\ pc[u] = 0 /\ pc' = [pc EXCEPT ![u] = 1]
            /\ UNCHANGED <<prog, db, lock, regs, mon>>
Acquire(u) == /\ pc[u] = 1 /\ (UseLock => lock = 0)
              /\ lock' = u /\ pc' = [pc EXCEPT ![u] = 2]
              /\ UNCHANGED <<prog, db, regs, mon>>
Cell(d, a) == IF Has(d, "hr", a) THEN d["hr"][a] ELSE -1
Work(u) ==
    LET op == prog[u] k == pc[u] - 1 IN
    /\ pc[u] >= 2 /\ k <= NSteps(op)
    /\ pc' = [pc EXCEPT ![u] = @ + 1]
    /\ CASE op.e = "rd" -> db' = db /\ regs' = [regs EXCEPT ![u] = Append(@, Cell(db, op.a + k - 1))]
         [] op.e = "wm" -> IF k = 1 THEN db' = db /\ regs' = [regs EXCEPT ![u] = <<HasRange(db, "hr", op.a, Len(op.vs))>>]
                           ELSE /\ regs' = regs
                                /\ db' = IF regs[u][1] THEN DoSet(db, "hr", op.a + k - 2, op.vs[k - 1]) ELSE db
         [] op.e = "add" -> IF k = 1 THEN db' = db /\ regs' = [regs EXCEPT ![u] = <<Has(db, "hr", op.a)>>]
                            ELSE regs' = regs /\ db' = IF regs[u][1] THEN db ELSE [db EXCEPT !["hr"] = (op.a :> op.v) @@ @]
         [] OTHER -> LET o == op.ops[k] IN
                     /\ regs' = [regs EXCEPT ![u] = Append(@, IF o.o = "get" THEN (IF Has(db, "hr", o.a) THEN <<1, db["hr"][o.a]>> ELSE <<0, 0>>)
                                                             ELSE <<IF Has(db, "hr", o.a) THEN 1 ELSE 0, o.v>>)]
                     /\ db' = IF o.o = "set" THEN DoSet(db, "hr", o.a, o.v) ELSE db
    /\ UNCHANGED <<prog, lock, mon>>
Outcome(u) ==
    LET op == prog[u] IN
    CASE op.e = "rd" -> IF \E x \in DOMAIN regs[u] : regs[u][x] = -1 THEN [x |-> 2, vals |-> <<>>] @@ op
                        ELSE [x |-> 0, vals |-> [k \in DOMAIN regs[u] |-> <<op.a + k - 1, regs[u][k]>>]] @@ op
      [] op.e = "wm" -> IF regs[u][1] THEN [x |-> 0, ra |-> op.a, rv |-> Len(op.vs)] @@ op ELSE [x |-> 2, ra |-> 0, rv |-> 0] @@ op
      [] op.e = "add" -> [r |-> IF regs[u][1] THEN 0 ELSE 1] @@ op
      [] OTHER -> [res |-> regs[u], th |-> 0] @@ op
Release(u) == /\ pc[u] = NSteps(prog[u]) + 2
              /\ lock' = 0 /\ pc' = [pc EXCEPT ![u] = -1]
              /\ UNCHANGED <<prog, db, regs, mon>>
\* the history is judged as it is recorded: every invocation is known with its outcome before its return; the
\* monitor sees operations that are still in flight as soon as their outcome is fixed (after Release)
Return(u) == /\ pc[u] = -1 /\ pc' = [pc EXCEPT ![u] = -2]
             /\ LET fl == {w \in DOMAIN prog : pc[w] = -1}
                    m1 == [mon EXCEPT !.pend = [w \in fl |-> Outcome(w)]]
                IN mon' = LStep(m1, [e |-> "ret", th |-> u])
             /\ UNCHANGED <<prog, db, lock, regs>>
Next == \E u \in DOMAIN prog : Begin(u) \/ Acquire(u) \/ Work(u) \/ Release(u) \/ Return(u)
Spec == Init /\ [][Next]_vars
D04 == mon.bad = {}
\* at the end the contents are those of one of the explanations
Final == (\A u \in DOMAIN prog : pc[u] = -2) => db \in {c.db : c \in mon.cfgs}
===============================================================================
