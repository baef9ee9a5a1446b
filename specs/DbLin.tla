-------------------------------- MODULE DbLin ---------------------------------
(* Monitor for D04: a concurrent history of database operations is acceptable    *)
(* when its operations, transactions included, take effect one at a time in an    *)
(* order that respects real time (linearizability). The monitor keeps the set of  *)
(* all (contents, operations already taken effect) explanations of the history so *)
(* far; the history is broken when no explanation is left.                        *)
EXTENDS Db

\* pend: thread -> operation in flight (with its logged outcome); cfgs: explanations
LInit == [pend |-> <<>>, cfgs |-> {[db |-> EmptyDb, done |-> {}]}, bad |-> {}]

\* all explanations reachable from c by letting pending operations take effect, th among them
RECURSIVE Extend(_, _, _)
Extend(c, pend, th) ==
    IF th \in c.done THEN {c}
    ELSE UNION {Extend([db |-> Apply(c.db, pend[u]), done |-> c.done \cup {u}], pend, th) :
                u \in {u \in DOMAIN pend : u \notin c.done /\ OutcomeOk(c.db, pend[u])}}

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

LStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e = "inv" -> [m EXCEPT !.pend = (ev.th :> ev.op) @@ @]
           [] ev.e = "ret" ->
                LET c2 == {[c EXCEPT !.done = @ \ {ev.th}] : c \in UNION {Extend(c, m.pend, ev.th) : c \in m.cfgs}}
                IN [pend |-> Drop(m.pend, ev.th), cfgs |-> c2, bad |-> IF c2 = {} THEN {"D04"} ELSE {}]
           [] ev.e = "seq" ->
                LET c2 == {[c EXCEPT !.db = Apply(@, ev.op)] : c \in {c \in m.cfgs : OutcomeOk(c.db, ev.op)}}
                IN [m EXCEPT !.cfgs = c2, !.bad = IF c2 = {} THEN {"D04"} ELSE {}]
           [] ev.e = "reset" -> LInit
           [] OTHER -> [m EXCEPT !.bad = {"D04"}]     \* crash, hang, deadlock
===============================================================================
