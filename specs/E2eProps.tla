------------------------------- MODULE E2eProps --------------------------------
(* Monitor for Y01: clients, a server and its database together behave like the      *)
(* database.  The monitor keeps every explanation of the history so far: contents,    *)
(* the requests that have taken effect but are not answered yet, with their results,   *)
(* and the failed ones that may still take effect, once.                               *)
EXTENDS Db

Tab(fn) == CASE fn \in {1, 5, 15} -> "co" [] fn = 2 -> "di" [] fn \in {3, 6, 16} -> "hr" [] OTHER -> "ir"
Refused == [k |-> "exc", c |-> 2]
\* <<database after request rq, its result>>
Effect(db, rq) ==
    LET t == Tab(rq.fn) IN
    CASE rq.fn <= 4 -> <<db, IF HasRange(db, t, rq.a, rq.n) THEN [k |-> "val", a |-> rq.a, vs |-> [i \in 1 .. rq.n |-> db[t][rq.a + i - 1]]] ELSE Refused>>
      [] rq.fn <= 6 -> <<DoSet(db, t, rq.a, rq.x), IF Has(db, t, rq.a) THEN [k |-> "val", a |-> rq.a, vs |-> <<rq.x>>] ELSE Refused>>
      [] OTHER -> <<DoSetRange(db, t, rq.a, rq.vs), IF HasRange(db, t, rq.a, Len(rq.vs)) THEN [k |-> "val", a |-> rq.a, vs |-> <<Len(rq.vs)>>] ELSE Refused>>

\* c: [db, eff: request -> result, z: failed requests that have not taken effect];  q: client -> its unanswered requests
\* rq: request -> what it asks;  by: request -> client;  strict: nothing may fail;  down: the manager has been shut down
EInit == [cfgs |-> {[db |-> EmptyDb, eff |-> <<>>, z |-> {}]}, q |-> <<>>, rq |-> <<>>, by |-> <<>>, strict |-> TRUE, down |-> FALSE, lost |-> FALSE, bad |-> {}]
EBad(m) == [m EXCEPT !.bad = IF m.down THEN {"M01"} ELSE {"Y01"}]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* a client sends a request when the one before it is answered
Heads(m, c) == {k \in {Head(m.q[x]) : x \in {x \in DOMAIN m.q : m.q[x] # <<>>}} : k \notin DOMAIN c.eff}
Takes(m, c, k) ==
    LET e == Effect(c.db, m.rq[k])
    IN  IF k \in c.z THEN [c EXCEPT !.db = e[1], !.z = @ \ {k}] ELSE [c EXCEPT !.db = e[1], !.eff = (k :> e[2]) @@ @]
\* with more explanations than this, the order of the requests is not judged any more
Limit == 3000
RECURSIVE Closure(_, _)
Closure(m, cs) ==
    LET n == cs \cup UNION {{Takes(m, c, k) : k \in Heads(m, c) \cup c.z} : c \in cs}
    IN  IF n = cs \/ Cardinality(n) > Limit THEN n ELSE Closure(m, n)

Done(m, k, r) ==
    LET c1 == Closure(m, m.cfgs)
        m1 == [m EXCEPT !.q[m.by[k]] = Tail(@)]
    IN  CASE k \notin DOMAIN m.by -> EBad(m)
          [] ~\E i \in DOMAIN m.q[m.by[k]] : m.q[m.by[k]][i] = k -> EBad(m)     \* answered before
          [] r.k \in {"conn", "tmo"} ->
                IF m.strict THEN EBad(m)
                \* one that has not been sent yet never takes effect
                ELSE IF Head(m.q[m.by[k]]) # k THEN [m EXCEPT !.q[m.by[k]] = SelectSeq(@, LAMBDA x : x # k)]
                ELSE [m1 EXCEPT !.cfgs = {IF k \in DOMAIN c.eff THEN [c EXCEPT !.eff = Without(@, k)] ELSE IF m.rq[k].fn <= 4 THEN c ELSE [c EXCEPT !.z = @ \cup {k}] : c \in c1}]
          [] Head(m.q[m.by[k]]) # k -> EBad(m)      \* not in the order in which they were asked
          [] OTHER ->
                LET c2 == {[c EXCEPT !.eff = Without(@, k)] : c \in {c \in c1 : k \in DOMAIN c.eff /\ c.eff[k] = r}}
                IN  IF c2 = {} /\ ~m.lost THEN EBad(m) ELSE [m1 EXCEPT !.cfgs = c2]

Step(m, ev) ==
         CASE ev.e = "add" -> [m EXCEPT !.cfgs = {[c EXCEPT !.db = DoAdd(@, ev.t, ev.a, ev.v)] : c \in Closure(m, @)}]
           [] ev.e \in {"mshut", "faults"} -> [m EXCEPT !.strict = FALSE]
           \* what has not happened by now does not happen any more
           [] ev.e = "down" -> [m EXCEPT !.down = TRUE, !.q = <<>>, !.cfgs = {[c EXCEPT !.z = {}, !.eff = <<>>] : c \in Closure(m, @)}]
           [] m.down /\ ev.e \in {"done", "poll"} -> EBad(m)
           [] m.down /\ ev.e = "sub" -> m
           [] ev.e = "sub" -> [m EXCEPT !.q = IF ev.c \in DOMAIN @ THEN [@ EXCEPT ![ev.c] = Append(@, ev.k)] ELSE (ev.c :> <<ev.k>>) @@ @,
                                        !.rq = (ev.k :> ev.rq) @@ @, !.by = (ev.k :> ev.c) @@ @]
           [] ev.e = "done" -> Done(m, ev.k, ev.r)
           [] ev.e = "snap" ->
                LET c2 == {c \in Closure(m, m.cfgs) : \A i \in DOMAIN ev.p : ev.p[i][3] = IF Has(c.db, ev.p[i][1], ev.p[i][2]) THEN c.db[ev.p[i][1]][ev.p[i][2]] ELSE -1}
                IN  IF c2 = {} /\ ~m.lost THEN EBad(m) ELSE [m EXCEPT !.cfgs = c2]
           [] ev.e = "end" -> IF \E x \in DOMAIN m.q : m.q[x] # <<>> THEN EBad(m) ELSE m      \* everything has been answered
           [] ev.e \in {"crash", "hang", "spin"} -> [m EXCEPT !.bad = {"Y01", "M01"}]
           [] OTHER -> m
Lost(m) == [m EXCEPT !.lost = TRUE, !.cfgs = {}]
EStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE IF m.lost \/ ev.e \notin {"add", "down", "done", "snap"} \/ Cardinality(Closure(m, m.cfgs)) <= Limit THEN Step(m, ev)
    ELSE IF PrintT("LOST") THEN Step(Lost(m), ev) ELSE m
===============================================================================
