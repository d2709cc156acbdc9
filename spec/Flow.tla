-------------------------------- MODULE Flow --------------------------------
(* Modules that sum, re-block, count, time, repeat and scale buffers.       *)
(* A buffer is <<channels, rate, sample, sample, ...>> (interleaved).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Vals(b) == SubSeq(b, 3, Len(b))
Mk(ch, sr, v) == <<ch, sr>> \o v
Min2(a, b) == IF a < b THEN a ELSE b
\* C++ integer division
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

RECURSIVE Cat(_)
Cat(bs) == IF bs = <<>> THEN <<>> ELSE Vals(Head(bs)) \o Cat(Tail(bs))
RECURSIVE SumAt(_, _)
SumAt(bs, j) == IF bs = <<>> THEN 0
                ELSE (IF j <= Len(Head(bs)) - 2 THEN Head(bs)[j + 2] ELSE 0) + SumAt(Tail(bs), j)

\* n:1 mixing: a buffer of the mixer's own size, channels and rate; sample j is the sum of the inputs' samples j,
\* inputs that are too short contribute silence, what is beyond the mixer's size is dropped
Mixed(inf, bs) == Mk(inf[3], inf[1], [j \in 1..(inf[2] * inf[3]) |-> SumAt(bs, j)])

\* Re-blocking.  pend: samples received but not delivered yet
Need(inf) == inf[2] * inf[3]
Total(pend, bs) == Len(pend) + Len(Cat(bs))
UniOut(inf, pend, bs) == Mk(inf[3], inf[1], SubSeq(pend \o Cat(bs), 1, Need(inf)))
UniRest(inf, pend, bs) == LET a == pend \o Cat(bs) IN SubSeq(a, Need(inf) + 1, Len(a))
\* upstream is asked for more only while the block cannot be completed
UniPulls(inf, pend, bs) == /\ Total(pend, bs) >= Need(inf)
                           /\ \A k \in 0..(Len(bs) - 1) : Total(pend, SubSeq(bs, 1, k)) < Need(inf)

\* Chain time: whole frames times the length of a frame
NANO == 1000000000
Npf(rate) == NANO \div rate
ChainTime(samples, ch, npf) == (samples \div ch) * npf
=============================================================================
