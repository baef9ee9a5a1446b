-------------------------------- MODULE MC_Exp --------------------------------
(* Every operation of Expected<T> in every content of NS slots.                  *)
EXTENDS Exp, Json
CONSTANTS NS, XKinds, Dump
VARIABLES s, hist, lastop
vars == <<s, hist, lastop>>
Slots == 1 .. NS
Ops == {[e |-> "val", d |-> d, v |-> v, rv |-> r] : d \in Slots, v \in {1, 2}, r \in {0, 1}}
  \cup {[e |-> "exc", d |-> d, x |-> x, p |-> 1, ptr |-> r] : d \in Slots, x \in XKinds, r \in {0, 1}}
  \cup {[e |-> "exc", d |-> d, x |-> "modbus", p |-> 2, ptr |-> 0] : d \in Slots}
  \cup {[e |-> "slice", d |-> d] : d \in Slots}
  \cup {[e |-> c, d |-> d, s |-> x] : c \in {"copy", "move"}, d \in Slots, x \in Slots}
  \cup {[e |-> "mut", d |-> d, v |-> 3] : d \in Slots}
  \cup {[e |-> "cfail", d |-> d] : d \in Slots} \cup {[e |-> "vfail", d |-> 1]}
  \cup {[e |-> "del", d |-> d] : d \in Slots}
Init == s = [d \in Slots |-> Empty] /\ hist = <<>> /\ lastop = [e |-> "none"]
Next == \E op \in Ops : Enabled(s, op) /\ s' = Apply(s, op) /\ hist' = Append(hist, op) /\ lastop' = op
Spec == Init /\ [][Next]_vars
View == s
Emit == Dump => PrintT("@@" \o ToJson(hist'))
\* E01: value or exception, never both nor neither; operations reach only the slots they name; a copy equals its source
\* and leaves it as it was
ValueXorError == \A d \in Slots : Live(s[d]) =>
    LET o == Observe(s[d]) IN (o.valid = 1) = (o.getx = "") /\ (o.valid = 0) = (Len(o.has) > 0) /\ (o.valid = 1) = (o.ptr = "refused")
Touched(op) == IF op.e = "move" THEN {op.d, op.s} ELSE IF op.e \in {"none", "slice", "cfail", "vfail"} THEN {} ELSE {op.d}
Local == [][ \A d \in Slots : d \notin Touched(lastop') => s'[d] = s[d] ]_vars
CopyEqual == [][ lastop'.e \in {"copy", "move"} => Observe(s'[lastop'.d]) = Observe(s[lastop'.s]) ]_vars
===============================================================================
