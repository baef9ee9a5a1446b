------------------------------ MODULE MC_Values -------------------------------
(* Exception codes and identifiers as finite functions; loggers as a state       *)
(* machine of up to NL loggers over two sinks.                                   *)
EXTENDS Values, Json
CONSTANTS NL, Dump
VARIABLES lg, hist, last
vars == <<lg, hist, last>>

ASSUME E02 == /\ \A c \in Codes : CodeOfName(NameOfCode(c)) = c
              /\ \A b \in 0 .. 255 : NameOfCode(b) \in Names /\ (NameOfCode(b) = "Unknown") = (b \notin Codes)
              /\ Cardinality({NameText[n] : n \in Names}) = Cardinality(Names)
ASSUME I01 == /\ \A x, y \in 0 .. 255 : (UidText(x) = UidText(y)) = (x = y)
              /\ TidNext(65535) = 0 /\ \A x \in 0 .. 65534 : TidNext(x) = x + 1

Roots == {[e |-> "lroot", sink |-> k, level |-> l] : k \in {1, 2, 4}, l \in Levels} \cup {[e |-> "lroot", sink |-> 0, level |-> 2]}
Init == lg = <<>> /\ hist = <<>> /\ last = [e |-> "none"]
Name(k) == "n" \o ToString(k)
Step(op) == hist' = Append(hist, op) /\ last' = op
Root == \E r \in Roots : Len(lg) < NL /\ Step(r) /\ lg' = Append(lg, NewLogger(r.sink, Name(Len(lg) + 1), r.level))
Clone == \E k \in DOMAIN lg, l \in Levels \cup {-1} :
            Len(lg) < NL /\ Step([e |-> "lclone", s |-> k, level |-> l]) /\ lg' = Append(lg, CloneOf(lg[k], Name(Len(lg) + 1), l))
Log == \E k \in DOMAIN lg, l \in Levels : Step([e |-> "log", d |-> k, level |-> l]) /\ UNCHANGED lg
Next == Root \/ Clone \/ Log
Spec == Init /\ [][Next]_vars
View == lg
Emit == Dump => PrintT("@@" \o ToJson(hist'))
\* L01: a message appears at most once, only at or above the threshold, only in the logger's own sinks; cloning changes no other logger
Filter == \A k \in DOMAIN lg, l \in Levels : \A o \in Outputs(lg[k], l, "x") :
             /\ o = <<>> \/ [i \in DOMAIN o |-> o[i].s] = lg[k].sinks
             /\ \A i \in DOMAIN o : o[i].n = lg[k].name /\ l >= CHOOSE t \in lg[k].th : \A u \in lg[k].th : t <= u
Frame == [][ \A k \in DOMAIN lg : lg'[k] = lg[k] ]_vars
===============================================================================
