-------------------------------- MODULE MC_Db ---------------------------------
(* Bounded exhaustive model of the database: every operation in every reachable  *)
(* content of the tables Tabs over the addresses Addrs. The properties are        *)
(* stated on the state change alone, independently of how the operations are      *)
(* defined. With Dump, every transition is printed as a scenario: the shortest    *)
(* operation sequence to its source state followed by the operation itself.       *)
EXTENDS Db, Json
CONSTANTS Tabs, Addrs, Dump, MaxLen
VARIABLES db, hist, lastop

vars == <<db, hist, lastop>>
Wr == Tabs \cap {"co", "hr", "co2", "hr2"}          \* tables that requests can write
Vals == {0, 1}
Ns == 1 .. MaxLen
Vecs == UNION {[1 .. n -> Vals] : n \in Ns}

Step(op) == /\ lastop' = op
            /\ hist' = Append(hist, op)
            /\ db' = Apply(db, op)

Add(t, a, v) == Step([e |-> IF t \in SingleTables THEN "sadd" ELSE "add", t |-> t, a |-> a, v |-> v])
Read(t, a, n) == t \in DbTables /\ Step([e |-> "rd", t |-> t, a |-> a, n |-> n])
Write(t, a, v) == t \in Wr /\ Step([e |-> "ws", t |-> t, a |-> a, v |-> v])
WriteMany(t, a, vs) == t \in Wr /\ Step([e |-> "wm", t |-> t, a |-> a, vs |-> vs])
Txn(t, a, v) == t \in DbTables /\ Step([e |-> "txn", ops |-> << [o |-> "get", t |-> t, a |-> a, v |-> 0],
                                       [o |-> "set", t |-> t, a |-> a, v |-> v], [o |-> "get", t |-> t, a |-> a, v |-> 0] >>])
TxnThrow(t, a, v) == t \in DbTables /\ Step([e |-> "txn", ops |-> << [o |-> "set", t |-> t, a |-> a, v |-> v],
                                       [o |-> "throw", t |-> t, a |-> a, v |-> 0], [o |-> "set", t |-> t, a |-> a, v |-> 1 - v] >>])
SSet(t, a, v) == t \in SingleTables /\ Step([e |-> "sset", t |-> t, a |-> a, v |-> v])
SSetMany(t, a, vs) == t \in SingleTables /\ Step([e |-> "ssets", t |-> t, a |-> a, vs |-> vs])
SGet(t, a) == t \in SingleTables /\ Step([e |-> "sget", t |-> t, a |-> a])
SGetMany(t, a, n) == t \in SingleTables /\ Step([e |-> "sgets", t |-> t, a |-> a, n |-> n])
SValid(t, a) == t \in SingleTables /\ Step([e |-> "sval", t |-> t, a |-> a])
SCopy(t, s, b) == t \in SingleTables /\ t # s /\ (t \in BitTables) = (s \in BitTables) /\ Step([e |-> "scopy", t |-> t, s |-> s, a |-> 0, by |-> b])
SValidRange(t, a, n) == t \in SingleTables /\ Step([e |-> "svalr", t |-> t, a |-> a, n |-> n])

Init == db = EmptyDb /\ hist = <<>> /\ lastop = [e |-> "none"]
Next == \E t \in Tabs, a \in Addrs :
           \/ \E v \in Vals : Add(t, a, v) \/ Write(t, a, v) \/ Txn(t, a, v) \/ TxnThrow(t, a, v) \/ SSet(t, a, v)
           \/ \E n \in Ns : Read(t, a, n) \/ SGetMany(t, a, n) \/ SValidRange(t, a, n)
           \/ \E vs \in Vecs : WriteMany(t, a, vs) \/ SSetMany(t, a, vs)
           \/ \E s \in Tabs, b \in {0, 1} : SCopy(t, s, b)
           \/ SGet(t, a) \/ SValid(t, a)
Spec == Init /\ [][Next]_vars
View == db
Emit == Dump => PrintT("@@" \o ToJson(hist'))

\* ---------------------------------------------------------------- properties

Range(op) == IF op.e \in {"wm", "ssets"} THEN op.a .. (op.a + Len(op.vs) - 1) ELSE {op.a}
Cells(d) == UNION {{<<t, a>> : a \in DOMAIN d[t]} : t \in AllTables}
IsWrite(op) == op.e \in {"ws", "wm", "sset", "ssets"}
IsRead(op) == op.e \in {"rd", "sget", "sgets", "sval", "svalr"}

\* D01: reading changes nothing; a write touches only the cells it addresses, in its own table
D01 == [][ /\ IsRead(lastop') => db' = db
           /\ \A t \in AllTables : db'[t] = db[t] \/ lastop'.e = "txn" \/ t = lastop'.t
           /\ lastop'.e # "scopy" => Cells(db) \subseteq Cells(db')
           /\ \A c \in Cells(db) : lastop'.e # "scopy" /\ db'[c[1]][c[2]] # db[c[1]][c[2]] =>
                 \/ IsWrite(lastop') /\ c[1] = lastop'.t /\ c[2] \in Range(lastop')
                 \/ lastop'.e = "txn" /\ \E k \in DOMAIN lastop'.ops : lastop'.ops[k].o = "set" /\ lastop'.ops[k].t = c[1] /\ lastop'.ops[k].a = c[2] ]_vars

\* D02: a range write stores every value, or nothing when any address of the range is missing
D02 == [][ lastop'.e \in {"wm", "ssets"} =>
             IF \A a \in Range(lastop') : <<lastop'.t, a>> \in Cells(db)
             THEN \A k \in DOMAIN lastop'.vs : db'[lastop'.t][lastop'.a + k - 1] = lastop'.vs[k]
             ELSE db' = db ]_vars

\* D03: an add creates a missing cell with the given value and leaves every existing cell as it was
D03 == [][ lastop'.e \in {"add", "sadd"} =>
             /\ \A c \in Cells(db) : lastop'.e # "scopy" /\ db'[c[1]][c[2]] = db[c[1]][c[2]]
             /\ Cells(db') = Cells(db) \cup {<<lastop'.t, lastop'.a>>}
             /\ <<lastop'.t, lastop'.a>> \notin Cells(db) => db'[lastop'.t][lastop'.a] = lastop'.v ]_vars

Bounded == \A t \in AllTables : DOMAIN db[t] \subseteq 0 .. 65535
===============================================================================
