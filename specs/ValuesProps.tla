----------------------------- MODULE ValuesProps ------------------------------
(* Monitor of E01, E02, I01, L01. *)
EXTENDS Values, Json
E == INSTANCE Exp

NSlots == 4
MInit == [s |-> [d \in 1 .. NSlots |-> E!Empty], lg |-> <<>>, bad |-> {}]

ExpOps == {"val", "exc", "slice", "copy", "move", "mut", "del", "cfail", "vfail"}

ExpOk(s2, ev) ==
    /\ \A d \in DOMAIN s2 : LET x == E!Observe(s2[d]) IN \A f \in DOMAIN x : ev.slots[d][f] = x[f]
    /\ ev.live = -1 \/ ev.live = E!LiveValues(s2)
    /\ E!LiveExcMin(s2) <= ev.livex /\ ev.livex <= E!LiveExcMax(s2)
    /\ ev.e \in {"cfail", "vfail"} /\ ev.live # -1 => ev.threw = E!Fails(s2, ev)
    /\ ev.e = "slice" => ev.refused = 1

UidOk(ev) == /\ ev.get = ev.v
             /\ ev.eq = <<ev.v>>
             /\ ev.ne = 255
             /\ ev.hash = 1
             /\ ev.map = ev.v
             /\ ev.s = UidText(ev.v)
             /\ ev.seq = UidText(ev.v) \o " " \o UidText(255 - ev.v)
             /\ ev.odd = "ff " \o UidText(ev.v) \o " " \o UidText(ev.v) \o " *****1" \o UidText(ev.v) \o TidText(ev.v)
             /\ ev.def = 255 /\ ev.copy = ev.v
TidOk(ev) == /\ ev.get = ev.v
             /\ ev.pre = <<TidNext(ev.v), TidNext(ev.v)>>
             /\ ev.post = <<ev.v, TidNext(ev.v)>>
             /\ \A k \in DOMAIN ev.cmp : ev.cmp[k][2] = (IF ev.cmp[k][1] = ev.v THEN 1 ELSE 0) /\ ev.cmp[k][3] = 1 - ev.cmp[k][2]
             /\ ev.s = TidText(ev.v)
             /\ ev.seq = TidText(ev.v) \o " " \o TidText(65535 - ev.v) \o " " \o TidText(ev.v)
\* the results of both increments of every value, less the value, in runs of equal ones
TidsOk(ev) == ev.runs = <<<<0, 65534, <<0, TidNext(0), TidNext(0), 0, TidNext(0), 1>>>>, <<65535, 65535, <<0, TidNext(65535) - 65535, TidNext(65535) - 65535, 0, TidNext(65535) - 65535, 1>>>>>>
EpOk(ev) == /\ ev.gh = ev.h1 /\ ev.gp = ev.p1
            /\ ev.eq = (IF ev.h1 = ev.h2 /\ ev.p1 = ev.p2 THEN 1 ELSE 0)
            /\ ev.ne = 1 - ev.eq
XparseOk(ev) == ev.t = NameOfCode(ev.b) /\ ev.text = NameText[ev.t]
XencOk(ev) == /\ ev.t \in Names \ {"Unknown"} =>
                    /\ ev.wire = CodeOfName(ev.t) /\ ev.back = ev.t
              /\ ev.fcout = (IF ev.fc < 128 THEN ev.fc + 128 ELSE ev.fc)
              /\ ev.msg = NameText[ev.t] /\ ev.smsg = ev.msg /\ ev.cmsg = ev.msg /\ ev.odd = ev.msg \o ev.msg /\ ev.type = ev.t /\ ev.len = 2

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e \in {"crash", "hang"} -> [m EXCEPT !.bad = {"E01", "E02", "I01", "L01"}]
      [] ev.e \in ExpOps -> LET s2 == E!Apply(m.s, ev) IN [m EXCEPT !.s = s2, !.bad = IF ExpOk(s2, ev) THEN {} ELSE {"E01"}]
      [] ev.e = "uid" -> [m EXCEPT !.bad = IF UidOk(ev) THEN {} ELSE {"I01"}]
      [] ev.e = "tid" -> [m EXCEPT !.bad = IF TidOk(ev) THEN {} ELSE {"I01"}]
      [] ev.e = "tids" -> [m EXCEPT !.bad = IF TidsOk(ev) THEN {} ELSE {"I01"}]
      [] ev.e = "teq" -> [m EXCEPT !.bad = IF ev.odd = <<>> THEN {} ELSE {"I01"}]
      [] ev.e = "ep" -> [m EXCEPT !.bad = IF EpOk(ev) THEN {} ELSE {"I01"}]
      [] ev.e = "xparse" -> [m EXCEPT !.bad = IF XparseOk(ev) THEN {} ELSE {"E02"}]
      [] ev.e = "xenc" -> [m EXCEPT !.bad = IF XencOk(ev) THEN {} ELSE {"E02"}]
      [] ev.e = "lroot" -> [m EXCEPT !.lg = Append(@, NewLogger(ev.sink, ev.name, ev.level))]
      [] ev.e = "lclone" -> [m EXCEPT !.lg = Append(@, CloneOf(m.lg[ev.s], ev.name, ev.level))]
      [] ev.e = "log" -> [m EXCEPT !.bad = IF ev.out \in Outputs(m.lg[ev.d], ev.level, ev.text) THEN {} ELSE {"L01"}]
      [] OTHER -> m

Why(m, ev) ==
    CASE ev.e \in ExpOps -> LET s2 == E!Apply(m.s, ev) IN ToString([slots |-> [d \in DOMAIN s2 |-> E!Observe(s2[d])], live |-> E!LiveValues(s2)])
      [] ev.e = "log" -> ToString(Outputs(m.lg[ev.d], ev.level, ev.text))
      [] ev.e = "xenc" -> ToString(IF ev.t = "Unknown" THEN -1 ELSE CodeOfName(ev.t))
      [] OTHER -> "see ValuesProps"
===============================================================================
