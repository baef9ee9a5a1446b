------------------------------- MODULE DbProps --------------------------------
(* Monitor: folds the logged operations of one database history and names the   *)
(* properties (D01, D02, D03, D05) that the history breaks. After the first      *)
(* deviation the real contents are unknown, so the rest is not judged.           *)
EXTENDS Db

MInit == [db |-> EmptyDb, last |-> "none", multi |-> FALSE, refused |-> FALSE, bad |-> {}]

Count(ev) == CASE ev.e \in {"rd", "sgets", "svalr"} -> ev.n [] ev.e \in {"wm", "ssets"} -> Len(ev.vs) [] OTHER -> 1

\* properties at stake when the outcome of ev itself is wrong
BlameOutcome(ev) ==
    CASE ev.e = "add" -> {"D01", "D03"}
      [] ev.e \in {"rd", "wm"} -> IF Count(ev) > 1 THEN {"D01", "D02"} ELSE {"D01"}
      [] ev.e \in {"ws", "txn", "fill"} -> {"D01"}
      [] ev.e \in {"sadd", "sfill", "scopy", "sset", "sget", "sval"} -> {"D05"}
      [] ev.e \in {"ssets", "sgets", "svalr"} -> {"D05"}
      [] OTHER -> {}

\* properties at stake when the contents after the last operation are wrong
BlameContents(m) ==
    CASE m.last = "add" -> {"D01", "D03"}
      [] m.last \in {"wm", "rd"} -> IF m.multi THEN {"D01", "D02"} ELSE {"D01"}
      [] m.last \in {"sadd", "sfill", "scopy", "sset", "ssets", "sget", "sgets", "sval", "svalr"} -> {"D05"}
      [] OTHER -> {"D01"}

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE IF ev.e \in {"crash", "hang"} THEN [m EXCEPT !.bad = {"D01", "D02", "D03", "D05"}]
    ELSE IF ev.e = "snap" THEN (IF OutcomeOk(m.db, ev) THEN m ELSE [m EXCEPT !.bad = BlameContents(m)])
    ELSE [db |-> Apply(m.db, ev), last |-> ev.e, multi |-> Count(ev) > 1, refused |-> FALSE,
          bad |-> IF OutcomeOk(m.db, ev) THEN {} ELSE BlameOutcome(ev)]
===============================================================================
