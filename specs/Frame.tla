--------------------------------- MODULE Frame ----------------------------------
(* Design of the stream parser: it counts the bytes that are still to come of the   *)
(* header or of the body, and keeps at most Keep bytes of a frame.                  *)
(* Mut names a deviation of the design ("none" for the design itself).              *)
EXTENDS Codec, TLC
CONSTANTS Keep, Mut
P0 == [buf |-> <<>>, more |-> 7, body |-> FALSE]
Cut(b, n) == IF Len(b) <= n THEN b ELSE SubSeq(b, 1, n)
Emit1(st, out) ==
    LET f == st.buf IN
    IF At(f, 3) = 0 \/ Mut = "proto" THEN Append(out, [t |-> At(f, 1), u |-> f[7], d |-> SubSeq(f, 8, Len(f))]) ELSE out
RECURSIVE Parse(_, _, _)
Parse(st, out, b) ==
    IF b = <<>> THEN [st |-> st, out |-> out]
    ELSE LET k == IF st.more < Len(b) THEN st.more ELSE Len(b)
             chunk == SubSeq(b, 1, k)
             rest == SubSeq(b, k + 1, Len(b))
             kept == IF Mut = "whole" /\ Len(st.buf) + k > Keep THEN st.buf ELSE Cut(st.buf \o chunk, Keep)
             s1 == [st EXCEPT !.buf = kept, !.more = @ - k]
         IN  IF s1.more > 0 THEN Parse(s1, out, rest)
             ELSE IF s1.body THEN Parse(P0, Emit1(s1, out), rest)
             ELSE LET L == At(kept, 5) IN
                  IF L = 0 /\ Mut # "zero" THEN Parse(P0, out, rest)
                  ELSE IF L = 1 /\ Mut # "lone" THEN Parse(P0, Emit1(s1, out), rest)
                  ELSE Parse([s1 EXCEPT !.more = (IF L = 0 THEN 65536 ELSE L) - 1, !.body = TRUE], out, rest)
===============================================================================
