------------------------------- MODULE MC_Codec -------------------------------
(* Laws of the codec, checked by TLC on every request and answer of a bounded     *)
(* domain (all functions, boundary addresses and values, every small length and   *)
(* the limits), stated without reference to how the operators compute them.       *)
EXTENDS Codec, TLC
CONSTANTS MaxN
Addrs == {0, 1, 255, 256, 65535}
Words16 == {0, 1, 255, 256, 4660, 65280, 65535}
BitVecs == UNION {[1 .. n -> {0, 1}] : n \in 1 .. MaxN}
Long(n, w) == [i \in 1 .. n |-> (i * w + i \div 3) % 65536]
LongBits(n, w) == [i \in 1 .. n |-> ((i * w) \div 4) % 2]
RegVecs == UNION {[1 .. n -> {0, 258, 65535}] : n \in 1 .. 3} \cup {Long(n, 257) : n \in {4, 100, 122, 123}}
ManyBits == BitVecs \cup {LongBits(n, w) : n \in {15, 16, 17, 1967, 1968}, w \in {1, 3, 7}}
Requests == {[fn |-> f, a |-> a, n |-> n] : f \in Reads, a \in Addrs, n \in {1, 2, 7, 8, 9, 124, 125}}
            \cup {[fn |-> f, a |-> a, n |-> n] : f \in BitReads, a \in Addrs, n \in {126, 1999, 2000}}
            \cup {[fn |-> 5, a |-> a, x |-> x] : a \in Addrs, x \in {0, 1}}
            \cup {[fn |-> 6, a |-> a, x |-> x] : a \in Addrs, x \in Words16}
            \cup {[fn |-> 15, a |-> a, vs |-> vs] : a \in {0, 513}, vs \in ManyBits}
            \cup {[fn |-> 16, a |-> a, vs |-> vs] : a \in {0, 513}, vs \in RegVecs}
Chunks == {<<>>, <<0>>, <<0, 1>>, <<0, 0>>, <<0, 0, 0, 2, 9, 3>>, <<0, 5, 0, 0, 0, 1, 7>>, <<1, 0, 0, 0, 0, 3, 7, 8, 9, 0>>, <<0, 1, 0, 7, 0, 2, 1, 1>>}
VARIABLES kind, x
Init == \/ kind = "rq" /\ x \in Requests
        \/ kind = "stream" /\ x \in Chunks \X Chunks \X Chunks
Next == FALSE /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>

AnswerTo(r) == IF r.fn \in BitReads THEN [fn |-> r.fn, vs |-> LongBits(r.n, 3)]
               ELSE IF r.fn \in RegReads THEN [fn |-> r.fn, vs |-> Long(r.n, 259)]
               ELSE IF r.fn \in Singles THEN r ELSE [fn |-> r.fn, a |-> r.a, n |-> Len(r.vs)]
IsBytes(b) == \A i \in DOMAIN b : b[i] \in 0 .. 255
Drops(b) == {Sub(b, 1, k) : k \in {1, 2, 5, Len(b) - 1} \cap (1 .. Len(b) - 1)}

\* C09/S03: what is encoded is what is decoded, within the size a frame can have
RoundTrip == kind = "rq" => LET b == RequestBytes(x) IN
    /\ ValidRequest(x) /\ IsBytes(b) /\ Len(b) \in 5 .. 253
    /\ RequestVerdicts(b) = {Ok(x)}
\* S03: no proper prefix and no extension of a request is accepted as a request
Framed == kind = "rq" => LET b == RequestBytes(x) IN
    \A c \in Drops(b) \cup {Append(b, 0)} : \A v \in RequestVerdicts(c) : v.k # "ok"
\* C10/S04: the same for answers; an answer is accepted only with exactly the requested number of values
Answers == kind = "rq" => LET s == AnswerTo(x) IN LET b == AnswerBytes(s) IN
    /\ IsBytes(b) /\ Len(b) \in 3 .. 253
    /\ AnswerVerdict(x, b).k = "val"
    /\ (x.fn \in Reads => AnswerVerdict(x, b).vs = s.vs /\ AnswerVerdict(x, b).a = x.a)
    /\ (x.fn \in Singles => AnswerVerdict(x, b).vs = << s.x >> /\ AnswerVerdict(x, b).a = s.a)
    /\ \A c \in Drops(b) \cup {Append(b, 0), <<>>} : AnswerVerdict(x, c).k = "mal"
    /\ \A f \in Functions \ {x.fn} : AnswerVerdict(x, [b EXCEPT ![1] = f]).k = "mal"
    /\ \A c \in 0 .. 255 : AnswerVerdict(x, ExceptionBytes(x.fn, c)) = [k |-> "exc", c |-> IF c \in KnownCodes THEN c ELSE 0]
\* F01: the frames of a stream do not depend on how it is cut, and lose or invent no byte
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Cuts == kind = "stream" =>
    LET whole == Feed(<<>>, <<>>, x[1] \o x[2] \o x[3])
        p1 == Feed(<<>>, <<>>, x[1])
        p2 == Feed(p1.buf, p1.fs, x[2])
        p3 == Feed(p2.buf, p2.fs, x[3])
    IN  /\ p3 = whole
        /\ Flat(whole.fs) \o whole.buf = x[1] \o x[2] \o x[3]
        /\ \A f \in {whole.fs[i] : i \in DOMAIN whole.fs} : Len(f) = (IF At(f, 5) = 0 THEN 7 ELSE 6 + At(f, 5))
===============================================================================
