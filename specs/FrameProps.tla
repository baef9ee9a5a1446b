------------------------------- MODULE FrameProps -------------------------------
(* What the stream parser may deliver (F01).                                       *)
(*   feed b ms     the bytes b arrive; the messages ms are delivered meanwhile      *)
(*   reset         the connection was lost                                         *)
(* 'over' is what becomes of frames too long for Modbus: not yet known, skipped, or *)
(* delivered cut to the size of the buffer. It must not depend on the segmentation. *)
EXTENDS Codec, Integers, TLC
MInit == [buf |-> <<>>, over |-> "?", bad |-> {}]

\* the messages ms are exactly those of the frames fs; the possible ways to treat oversize frames
RECURSIVE Ways(_, _, _)
Ways(fs, ms, over) ==
    IF fs = <<>> THEN (IF ms = <<>> THEN {over} ELSE {})
    ELSE LET f == Head(fs) IN
         IF IsMessage(f) THEN (IF ms # <<>> /\ Head(ms) = MessageOf(f) THEN Ways(Tail(fs), Tail(ms), over) ELSE {})
         ELSE IF ~IsOversize(f) THEN Ways(Tail(fs), ms, over)
         ELSE (IF over # "cut" THEN Ways(Tail(fs), ms, "skip") ELSE {})
              \cup (IF over # "skip" /\ ms # <<>> /\ Head(ms) = Truncated(f) THEN Ways(Tail(fs), Tail(ms), "cut") ELSE {})

MStep(m, ev) ==
    IF m.bad # {} THEN m
    ELSE CASE ev.e = "reset" -> [m EXCEPT !.buf = <<>>]
           [] ev.e = "feed" ->
                LET p == Feed(m.buf, <<>>, ev.b)
                    w == Ways(p.fs, ev.ms, m.over)
                IN  IF w = {} THEN [m EXCEPT !.bad = {"F01"}]
                    ELSE [m EXCEPT !.buf = p.buf, !.over = IF Cardinality(w) = 1 THEN CHOOSE x \in w : TRUE ELSE m.over]
           [] OTHER -> [m EXCEPT !.bad = {"F01"}]
===============================================================================
