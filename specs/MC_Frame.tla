------------------------------- MODULE MC_Frame ---------------------------------
(* Every stream of up to N frames from a small set, cut in every way into pieces of *)
(* the sizes in Sizes: the parser delivers what the whole stream contains.           *)
EXTENDS Frame, FrameProps, Json
CONSTANTS N, Sizes, Dump
VARIABLES stream, pos, st, m, hist, got
vars == <<stream, pos, st, m, hist, got>>
Msg(t, L, d) == W(t) \o << 0, 0 >> \o W(L) \o << 17 >> \o d
Frames == { Msg(513, 3, <<1, 2>>), Msg(514, 1, <<>>), Msg(515, 2, <<9>>), Msg(516, 0, <<>>),
            W(517) \o << 0, 1 >> \o W(2) \o << 17, 3 >>, W(518) \o << 1, 0 >> \o W(1) \o << 17 >>,
            Msg(519, 254, [i \in 1 .. 253 |-> i % 256]), Msg(520, 255, [i \in 1 .. 254 |-> (i + 7) % 256]), Msg(521, 300, [i \in 1 .. 299 |-> (i * 3) % 256]) }
RECURSIVE Streams(_)
Streams(n) == IF n = 0 THEN {<<>>} ELSE {<<f>> \o s : f \in Frames, s \in Streams(n - 1)}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Init == /\ stream \in {Cat(s) : s \in UNION {Streams(k) : k \in 1 .. N}}
        /\ pos = 0 /\ st = P0 /\ m = MInit /\ hist = <<>> /\ got = <<>>
Piece(k) == LET e == IF pos + k < Len(stream) THEN pos + k ELSE Len(stream)
                b == SubSeq(stream, pos + 1, e)
                r == Parse(st, <<>>, b)
            IN  /\ pos < Len(stream) /\ pos' = e /\ st' = r.st /\ stream' = stream
                /\ got' = got \o r.out
                /\ m' = MStep(m, [e |-> "feed", b |-> b, ms |-> r.out])
                /\ hist' = Append(hist, k)
Next == \E k \in Sizes : Piece(k)
Spec == Init /\ [][Next]_vars
View == <<stream, pos, st, m, got>>
Accepted == m.bad = {}
\* independently of the monitor: at the end the messages are those of the frames of the stream
Whole == LET fs == Feed(<<>>, <<>>, stream).fs
             want == SelectSeq(fs, LAMBDA f : At(f, 3) = 0 /\ At(f, 5) >= 1)
         IN  pos = Len(stream) => /\ Len(got) = Len(want)
                                  /\ \A i \in DOMAIN want : got[i] = IF IsMessage(want[i]) THEN MessageOf(want[i]) ELSE Truncated(want[i])
Emit == (Dump /\ pos' = Len(stream)) => PrintT("@@" \o ToJson([s |-> stream, h |-> hist']))
===============================================================================
