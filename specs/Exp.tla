--------------------------------- MODULE Exp ----------------------------------
(* Expected<T> (lib/include/modbus/Expected.h): slots holding a value or an      *)
(* exception. A slot that was moved from still has to be destroyed, and nothing  *)
(* more is known of it.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the exceptions of the library derive from IException ("base"); "std" is a std::runtime_error, "user" a class   *)
(* derived from it, "deep" one derived from "user" and from the library's connection error, "int" no class at all, "modsub" a class *)
(* derived from the library's Modbus exception, "invarg" the class with which a result refuses what it does not hold    *)
Kinds == {"timeout", "conn", "modbus", "malreq", "malresp", "std", "user", "deep", "int", "invarg", "modsub"}
\* the types an exception can be caught as, in the order in which the harness asks for them
Asked == <<"timeout", "conn", "modbus", "malreq", "malresp", "std", "base", "user", "deep", "stdexc", "int", "invarg", "modsub">>
Is(k) == CASE k \in {"timeout", "conn", "modbus", "malreq", "malresp"} -> {k, "base"}
           [] k = "modsub" -> {"modbus", "base", "modsub"}
           [] k = "invarg" -> {"invarg", "stdexc"}
           [] k = "std" -> {"std", "stdexc"}
           [] k = "user" -> {"std", "user", "stdexc"}
           [] k = "deep" -> {"conn", "base", "std", "user", "deep", "stdexc"}
           [] OTHER -> {k}
IsSeq(k) == SelectSeq(Asked, LAMBDA t : t \in Is(k))
Empty == [k |-> "empty", v |-> 0, x |-> "", p |-> 0]
Val(v) == [k |-> "val", v |-> v, x |-> "", p |-> 0]
Exc(x, p) == [k |-> "exc", v |-> 0, x |-> x, p |-> p]
MovedVal == [k |-> "movedval", v |-> 0, x |-> "", p |-> 0]
MovedExc == [k |-> "movedexc", v |-> 0, x |-> "", p |-> 0]
Live(o) == o.k \in {"val", "exc"}
Payload(x, p) == IF x = "timeout" THEN 0 ELSE p

Apply(s, op) ==
    CASE op.e = "val" -> [s EXCEPT ![op.d] = Val(op.v)]
      [] op.e = "exc" -> [s EXCEPT ![op.d] = Exc(op.x, Payload(op.x, op.p))]
      [] op.e = "slice" -> s
      [] op.e = "copy" -> [s EXCEPT ![op.d] = s[op.s]]
      [] op.e = "move" -> [s EXCEPT ![op.d] = s[op.s], ![op.s] = IF s[op.s].k = "val" THEN MovedVal ELSE MovedExc]
      [] op.e = "mut" -> [s EXCEPT ![op.d] = Val(op.v)]
      [] op.e = "del" -> [s EXCEPT ![op.d] = Empty]
      [] OTHER -> s

Enabled(s, op) ==
    CASE op.e \in {"copy", "move"} -> op.d # op.s /\ Live(s[op.s])
      [] op.e = "mut" -> s[op.d].k = "val"
      [] op.e = "cfail" -> Live(s[op.d])
      [] op.e = "del" -> s[op.d].k # "empty"
      [] OTHER -> TRUE

\* what can be observed of a slot: is it a value, what get() answers or throws, which exception types has_exception()
\* admits and get_exception<>() returns (with which payload; -1: refused), what get_exception() holds
Observe(o) ==
    IF o.k = "val"
    THEN [valid |-> 1, get |-> o.v, getx |-> "", getp |-> 0, has |-> <<>>, gete |-> <<>>, ptr |-> "refused", ptrp |-> 0]
    ELSE IF o.k = "exc"
    THEN [valid |-> 0, get |-> -1, getx |-> o.x, getp |-> o.p, has |-> IsSeq(o.x),
          gete |-> [i \in DOMAIN IsSeq(o.x) |-> <<IsSeq(o.x)[i], IF IsSeq(o.x)[i] \in {"base", "stdexc"} THEN 0 ELSE o.p>>], ptr |-> o.x, ptrp |-> o.p]
    ELSE [valid |-> -1, get |-> -1, getx |-> "", getp |-> 0, has |-> <<>>, gete |-> <<>>, ptr |-> "", ptrp |-> 0]

\* values of T alive: one for each slot that holds a value, moved from or not
LiveValues(s) == Cardinality({d \in DOMAIN s : s[d].k \in {"val", "movedval"}})

(* exception objects of the counted class: those of slots that hold one, and possibly of slots moved from; copies may share *)
LiveExcMax(s) == Cardinality({d \in DOMAIN s : s[d].k = "movedexc" \/ (s[d].k = "exc" /\ s[d].x \in {"user", "deep"})})
LiveExcMin(s) == IF \E d \in DOMAIN s : s[d].k = "exc" /\ s[d].x \in {"user", "deep"} THEN 1 ELSE 0
\* a value whose copying fails is not stored; an exception is not affected
Fails(s, op) == IF op.e = "vfail" \/ s[op.d].k = "val" THEN 1 ELSE 0
===============================================================================
