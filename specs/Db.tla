---------------------------------- MODULE Db ----------------------------------
(* The point database (lib/include/modbus/server/db, lib/src/server/db).        *)
(*                                                                              *)
(* A database is a function from table names to tables; a table is a function   *)
(* from the addresses that exist to their values (0..65535; bits are 0 or 1).   *)
(* "co", "di", "hr", "ir" are the four tables of InMemoryDatabase; "sb", "sr"   *)
(* are stand-alone SingleTypeDatabase objects of bits and of registers. The     *)
(* names that end in 2 are those of a second database and of second objects.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DbTables == {"co", "di", "hr", "ir", "co2", "di2", "hr2", "ir2"}
SingleTables == {"sb", "sr", "sb2", "sr2"}
BitTables == {"co", "di", "sb", "co2", "di2", "sb2"}
AllTables == DbTables \cup SingleTables

EmptyDb == [t \in AllTables |-> <<>>]

Has(db, t, a) == a \in DOMAIN db[t]

(* A range of n addresses from a exists: it does not wrap around 65535 because  *)
(* no address above 65535 ever exists.                                          *)
HasRange(db, t, a, n) == \A k \in 0 .. (n - 1) : (a + k) \in DOMAIN db[t]

\* ---- effects

DoAdd(db, t, a, v) == IF Has(db, t, a) THEN db ELSE [db EXCEPT ![t] = @ @@ (a :> v)]

DoSet(db, t, a, v) == IF Has(db, t, a) THEN [db EXCEPT ![t][a] = v] ELSE db

DoSetRange(db, t, a, vs) ==
    IF HasRange(db, t, a, Len(vs))
    THEN [db EXCEPT ![t] = [x \in DOMAIN @ |-> IF a <= x /\ x < a + Len(vs) THEN vs[x - a + 1] ELSE @[x]]]
    ELSE db

\* Adds the addresses a .. a+n-1, skipping those that exist; the value of x is (x*k + c) mod 65536, or mod 2
FillValue(t, x, k, c) == IF t \in BitTables THEN (x * k + c) % 2 ELSE (x * k + c) % 65536
DoFill(db, t, a, n, k, c) == [db EXCEPT ![t] = @ @@ [x \in a .. (a + n - 1) |-> FillValue(t, x, k, c)]]

\* ---- results

ReadValues(db, t, a, n) == [i \in 1 .. n |-> <<a + i - 1, db[t][a + i - 1]>>]

\* ---- transactions: a sequence of operations applied without interference, up to a throw

RECURSIVE TxnRun(_, _, _)
\* <<database, results>>: a get answers <<1, v>> or <<0, 0>>, a set answers <<1, v>> or <<0, v>>
TxnRun(db, ops, acc) ==
    IF ops = <<>> THEN <<db, acc>>
    ELSE LET o == Head(ops) IN
         CASE o.o = "get" -> TxnRun(db, Tail(ops), Append(acc, IF Has(db, o.t, o.a) THEN <<1, db[o.t][o.a]>> ELSE <<0, 0>>))
           [] o.o = "set" -> TxnRun(DoSet(db, o.t, o.a, o.v), Tail(ops), Append(acc, <<IF Has(db, o.t, o.a) THEN 1 ELSE 0, o.v>>))
           [] o.o = "throw" -> <<db, acc>>
           [] OTHER -> TxnRun(db, Tail(ops), acc)

TxnThrows(ops) == \E i \in DOMAIN ops : ops[i].o = "throw"

(* One operation as it is logged, e.g. [e |-> "wm", t |-> "hr", a |-> 3, vs |-> <<1, 2>>, x |-> 0, ...]: the    *)
(* database after it, and whether its logged outcome is what the operation answers on db.                     *)
Apply(db, ev) ==
    CASE ev.e \in {"add", "sadd"} -> DoAdd(db, ev.t, ev.a, ev.v)
      [] ev.e \in {"ws", "sset"} -> DoSet(db, ev.t, ev.a, ev.v)
      [] ev.e \in {"wm", "ssets"} -> DoSetRange(db, ev.t, ev.a, ev.vs)
      [] ev.e \in {"fill", "sfill"} -> DoFill(db, ev.t, ev.a, ev.n, ev.k, ev.c)
      [] ev.e = "txn" -> TxnRun(db, ev.ops, <<>>)[1]
      \* the object ev.t becomes a copy of the object ev.s
      [] ev.e = "scopy" -> [db EXCEPT ![ev.t] = db[ev.s]]
      [] OTHER -> db

IllegalDataAddress == 2

Expected(db, ev) ==
    CASE ev.e \in {"add", "sadd"} -> [r |-> IF Has(db, ev.t, ev.a) THEN 0 ELSE 1]
      [] ev.e = "rd" -> IF HasRange(db, ev.t, ev.a, ev.n) THEN [x |-> 0, vals |-> ReadValues(db, ev.t, ev.a, ev.n)]
                        ELSE [x |-> IllegalDataAddress, vals |-> <<>>]
      [] ev.e = "ws" -> IF Has(db, ev.t, ev.a) THEN [x |-> 0, ra |-> ev.a, rv |-> ev.v] ELSE [x |-> IllegalDataAddress, ra |-> 0, rv |-> 0]
      [] ev.e = "wm" -> IF HasRange(db, ev.t, ev.a, Len(ev.vs)) THEN [x |-> 0, ra |-> ev.a, rv |-> Len(ev.vs)]
                        ELSE [x |-> IllegalDataAddress, ra |-> 0, rv |-> 0]
      [] ev.e = "txn" -> [res |-> TxnRun(db, ev.ops, <<>>)[2], th |-> IF TxnThrows(ev.ops) THEN 1 ELSE 0]
      [] ev.e \in {"fill", "sfill"} -> [r |-> 1]
      [] ev.e = "sset" -> [r |-> IF Has(db, ev.t, ev.a) THEN 1 ELSE 0]
      [] ev.e = "ssets" -> [r |-> IF HasRange(db, ev.t, ev.a, Len(ev.vs)) THEN 1 ELSE 0]
      [] ev.e = "sget" -> IF Has(db, ev.t, ev.a) THEN [r |-> 1, v |-> db[ev.t][ev.a]] ELSE [r |-> 0, v |-> 0]
      [] ev.e = "sgets" -> IF HasRange(db, ev.t, ev.a, ev.n)
                           THEN [r |-> 1, vals |-> [i \in 1 .. ev.n |-> db[ev.t][ev.a + i - 1]]] ELSE [r |-> 0, vals |-> <<>>]
      [] ev.e = "sval" -> [r |-> IF Has(db, ev.t, ev.a) THEN 1 ELSE 0]
      [] ev.e = "svalr" -> [r |-> IF HasRange(db, ev.t, ev.a, ev.n) THEN 1 ELSE 0]
      [] ev.e = "snap" -> [p |-> [i \in DOMAIN ev.p |->
                             <<ev.p[i][1], ev.p[i][2], IF Has(db, ev.p[i][1], ev.p[i][2]) THEN db[ev.p[i][1]][ev.p[i][2]] ELSE -1>>]]
      [] OTHER -> [none |-> 0]

OutcomeOk(db, ev) == LET x == Expected(db, ev) IN \A f \in DOMAIN x : f = "none" \/ ev[f] = x[f]
===============================================================================
