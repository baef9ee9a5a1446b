-------------------------------- MODULE Codec ---------------------------------
(* The Modbus application protocol: requests, answers, their bytes and their      *)
(* limits, for the eight functions of the library. Bytes are numbers 0..255.      *)
(*   request  [fn, a, n]     fn 1..4: read n points from address a                *)
(*            [fn, a, x]     fn 5, 6: write value x (0/1 for coils) at a          *)
(*            [fn, a, vs]    fn 15, 16: write the values vs from a on             *)
(*   answer   [fn, vs]       fn 1..4: the values                                  *)
(*            [fn, a, x]     fn 5, 6: what was written;  [fn, a, n]  fn 15, 16    *)
EXTENDS Naturals, Sequences, FiniteSets

BitReads == {1, 2}
RegReads == {3, 4}
Reads == BitReads \cup RegReads
Singles == {5, 6}
Multis == {15, 16}
Functions == Reads \cup Singles \cup Multis

Hi(n) == (n \div 256) % 256
Lo(n) == n % 256
W(n) == << Hi(n), Lo(n) >>
At(b, i) == b[i] * 256 + b[i + 1]
Sub(b, i, j) == SubSeq(b, i, j)

MaxPoints(fn) == CASE fn \in BitReads -> 2000 [] fn \in RegReads -> 125 [] fn = 15 -> 1968 [] fn = 16 -> 123 [] OTHER -> 1

ValidRequest(r) == CASE r.fn \in Reads -> r.n \in 1 .. MaxPoints(r.fn)
                     [] r.fn \in Multis -> Len(r.vs) \in 1 .. MaxPoints(r.fn)
                     [] OTHER -> TRUE

\* ------------------------------------------------------------ packed values

Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128 >>
BytesFor(n) == (n + 7) \div 8
BitAt(byte, k) == (byte \div Pow2[k + 1]) % 2
SumTo(f, n) == LET S[k \in 0 .. n] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[n]
PackByte(vs, i) ==       \* the i-th byte (from 1) of the packed bits vs
    LET bit(k) == IF 8 * (i - 1) + k <= Len(vs) THEN vs[8 * (i - 1) + k] ELSE 0
    IN  bit(1) + 2 * bit(2) + 4 * bit(3) + 8 * bit(4) + 16 * bit(5) + 32 * bit(6) + 64 * bit(7) + 128 * bit(8)
Pack(vs) == [i \in 1 .. BytesFor(Len(vs)) |-> PackByte(vs, i)]
Unpack(bs, n) == [k \in 1 .. n |-> BitAt(bs[(k - 1) \div 8 + 1], (k - 1) % 8)]
Words(vs) == [i \in 1 .. 2 * Len(vs) |-> IF i % 2 = 1 THEN Hi(vs[(i + 1) \div 2]) ELSE Lo(vs[i \div 2])]
Unwords(bs, n) == [k \in 1 .. n |-> bs[2 * k - 1] * 256 + bs[2 * k]]
CoilWord(x) == IF x = 1 THEN << 255, 0 >> ELSE << 0, 0 >>

\* ----------------------------------------------------------------- requests

RequestBytes(r) ==
    CASE r.fn \in Reads -> << r.fn >> \o W(r.a) \o W(r.n)
      [] r.fn = 5 -> << 5 >> \o W(r.a) \o CoilWord(r.x)
      [] r.fn = 6 -> << 6 >> \o W(r.a) \o W(r.x)
      [] r.fn = 15 -> << 15 >> \o W(r.a) \o W(Len(r.vs)) \o << BytesFor(Len(r.vs)) >> \o Pack(r.vs)
      [] r.fn = 16 -> << 16 >> \o W(r.a) \o W(Len(r.vs)) \o << 2 * Len(r.vs) >> \o Words(r.vs)

\* What a server makes of the bytes b of a request: the verdicts it may reach.
\*   [k |-> "ok", rq |-> request], [k |-> "exc", c |-> code] (answered with that exception), [k |-> "drop"] (not answered)
Exc(c) == [k |-> "exc", c |-> c]
Drop == [k |-> "drop"]
Ok(r) == [k |-> "ok", rq |-> r]
RequestVerdicts(b) ==
    IF b = <<>> THEN {Drop}
    ELSE LET fn == b[1] IN
    IF fn \notin Functions THEN {Exc(1)}
    ELSE IF fn \in Reads THEN
        IF Len(b) # 5 THEN {Drop}
        ELSE IF At(b, 4) \notin 1 .. MaxPoints(fn) THEN {Exc(3)} ELSE {Ok([fn |-> fn, a |-> At(b, 2), n |-> At(b, 4)])}
    ELSE IF fn = 5 THEN
        IF Len(b) # 5 THEN {Drop}
        ELSE IF At(b, 4) \notin {0, 65280} THEN {Exc(3)} ELSE {Ok([fn |-> 5, a |-> At(b, 2), x |-> IF At(b, 4) = 0 THEN 0 ELSE 1])}
    ELSE IF fn = 6 THEN
        IF Len(b) # 5 THEN {Drop} ELSE {Ok([fn |-> 6, a |-> At(b, 2), x |-> At(b, 4)])}
    ELSE IF Len(b) < 6 THEN {Drop}
    ELSE LET n == At(b, 4)
             want == IF fn = 15 THEN BytesFor(n) ELSE 2 * n
             inlimits == n \in 1 .. MaxPoints(fn) /\ b[6] = want
             framed == Len(b) = 6 + b[6]
         IN  IF inlimits /\ framed THEN {Ok([fn |-> fn, a |-> At(b, 2), vs |-> IF fn = 15 THEN Unpack(Sub(b, 7, Len(b)), n) ELSE Unwords(Sub(b, 7, Len(b)), n)])}
             ELSE IF inlimits THEN {Drop}
             ELSE IF framed THEN {Exc(3)}
             ELSE {Exc(3), Drop}        \* wrong in both ways

\* ------------------------------------------------------------------ answers

AnswerBytes(s) ==
    CASE s.fn \in BitReads -> << s.fn, BytesFor(Len(s.vs)) >> \o Pack(s.vs)
      [] s.fn \in RegReads -> << s.fn, 2 * Len(s.vs) >> \o Words(s.vs)
      [] s.fn = 5 -> << 5 >> \o W(s.a) \o CoilWord(s.x)
      [] s.fn = 6 -> << 6 >> \o W(s.a) \o W(s.x)
      [] s.fn \in Multis -> << s.fn >> \o W(s.a) \o W(s.n)
ExceptionBytes(fn, c) == << (fn % 128) + 128, c >>
KnownCodes == {1, 2, 3, 4, 5, 6, 8, 10, 11}

\* What a client makes of the bytes b received in answer to the request r:
\*   [k |-> "val", ..fields..] as the answer records above, [k |-> "exc", c |-> code or 0 for an unknown code], [k |-> "mal"]
Mal == [k |-> "mal"]
AnswerVerdict(r, b) ==
    IF b = <<>> THEN Mal
    ELSE IF b[1] % 128 # r.fn THEN Mal
    ELSE IF b[1] >= 128 THEN (IF Len(b) # 2 THEN Mal ELSE [k |-> "exc", c |-> IF b[2] \in KnownCodes THEN b[2] ELSE 0])
    ELSE IF r.fn \in Reads THEN
        LET want == IF r.fn \in BitReads THEN BytesFor(r.n) ELSE 2 * r.n IN
        IF Len(b) < 2 THEN Mal
        ELSE IF b[2] # want \/ Len(b) # 2 + want THEN Mal
        ELSE [k |-> "val", a |-> r.a, vs |-> IF r.fn \in BitReads THEN Unpack(Sub(b, 3, Len(b)), r.n) ELSE Unwords(Sub(b, 3, Len(b)), r.n)]
    ELSE IF Len(b) # 5 THEN Mal
    ELSE IF r.fn = 5 THEN (IF At(b, 4) \notin {0, 65280} THEN Mal ELSE [k |-> "val", a |-> At(b, 2), vs |-> << IF At(b, 4) = 0 THEN 0 ELSE 1 >>])
    ELSE [k |-> "val", a |-> At(b, 2), vs |-> << At(b, 4) >>]

\* --------------------------------------------------------------- MBAP frames

Frame(tid, unit, pdu) == W(tid) \o << 0, 0 >> \o W(Len(pdu) + 1) \o << unit >> \o pdu

\* The stream parser: 'buf' is what has arrived of the frame in progress. A frame is a header of seven bytes, whose
\* length field counts the unit identifier and the data; a length of zero makes the header the whole frame. Frames
\* with protocol identifier 0 and 1 <= length <= 254 are messages; longer ones cannot be Modbus: they are consumed
\* whole and either not delivered or delivered with the first 253 bytes of their data.
MaxLength == 254
Wants(buf) == IF Len(buf) < 7 THEN 7 ELSE IF At(buf, 5) = 0 THEN 7 ELSE 6 + At(buf, 5)
IsMessage(f) == At(f, 3) = 0 /\ At(f, 5) \in 1 .. MaxLength
IsOversize(f) == At(f, 3) = 0 /\ At(f, 5) > MaxLength
MessageOf(f) == [t |-> At(f, 1), u |-> f[7], d |-> Sub(f, 8, Len(f))]
Truncated(f) == [t |-> At(f, 1), u |-> f[7], d |-> Sub(f, 8, 260)]

\* folds bytes b into [buf, fs]: fs collects the completed frames. One step per frame, not per byte.
RECURSIVE Feed(_, _, _)
Feed(buf, fs, b) ==
    IF b = <<>> THEN [buf |-> buf, fs |-> fs]
    ELSE LET need == Wants(buf) - Len(buf)
             k == IF need < Len(b) THEN need ELSE Len(b)
             nb == buf \o Sub(b, 1, k)
             rest == Sub(b, k + 1, Len(b))
         IN  IF Len(nb) = Wants(nb) /\ Len(nb) >= 7 THEN Feed(<<>>, Append(fs, nb), rest)
             ELSE Feed(nb, fs, rest)
===============================================================================
