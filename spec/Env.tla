-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* Envelopes.  Time is a number of nanoseconds, but it only ever moves in  *)
(* frames: time = (samples \div channels) * npf.                           *)
(* An envelope is [k, t0, t1, v0, v1, lg, lk, u]:                          *)
(*   k   "const" "set" "lin" "exp"        t0, t1  start and stop (t1 < 0:  *)
(*   forever)   v0, v1  start and stop value                               *)
(*   lg, lk  (exp) 1000*log2 of the start value and of stop/start          *)
(*   u   number of the user's envelope, 0 for a filler                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Filler(v, t0, t1) == [k |-> "const", t0 |-> t0, t1 |-> t1, v0 |-> v, v1 |-> v, lg |-> 0, lk |-> 0, u |-> 0]

TimeAt(n, c) == (n \div c.ch) * c.npf
\* samples left before the stop time: whole frames only
Remaining(e, n, c) == LET d == e.t1 - TimeAt(n, c) IN IF d <= 0 THEN 0 ELSE (d \div c.npf) * c.ch
\* an envelope with a stop time is over once that time has come
Over(e, n, c) == e.t1 >= 0 /\ TimeAt(n, c) >= e.t1

-----------------------------------------------------------------------------
(* What a chain of envelopes plays: the user's envelopes in the order they  *)
(* were added; before the first one the chain's start value; between two    *)
(* that leave a gap, and after the last, the stop value reached.            *)
RECURSIVE Play(_, _)
Play(us, p) ==
    IF us = <<>> THEN <<Filler(p.v1, 0, -1)>>
    ELSE LET e == Head(us)
         IN (IF p.t1 < e.t0 THEN <<Filler(p.v1, p.t1, e.t0)>> ELSE <<>>) \o <<e>> \o Play(Tail(us), e)
Played(us, startv) == Play(us, [v1 |-> startv, t1 |-> 0])

\* the envelope in force at sample n, from position i on
RECURSIVE InForce(_, _, _, _)
InForce(pl, i, n, c) == IF i < Len(pl) /\ Over(pl[i], n, c) THEN InForce(pl, i + 1, n, c) ELSE i
\* moving on may be done as soon as an envelope is over or when the next sample is needed
Positions(pl, i, n, c) == i..InForce(pl, i, n, c)

-----------------------------------------------------------------------------
(* Values, against an observation: x = round(value * sc), g = 1000*log2|value| *)
Abs(x) == IF x < 0 THEN -x ELSE x
ValueOk(e, n, c, x, g) ==
    LET t == TimeAt(n, c)
        d == e.t1 - e.t0
        dt == t - e.t0
        inside == d > 0 /\ dt >= 0 /\ dt <= d
    IN CASE e.k = "const" -> x = c.sc * e.v0
         [] e.k = "set" -> x = c.sc * (IF Remaining(e, n, c) > 0 THEN e.v0 ELSE e.v1)
         [] e.k = "lin" -> inside => Abs(x * d - c.sc * (e.v0 * d + (e.v1 - e.v0) * dt)) <= d
         \* a ramp down from a value known to 1/sc
         [] e.k = "rel" -> inside => Abs(x * d - e.v0 * (d - dt)) <= 2 * d
         [] e.k = "exp" -> inside => /\ Abs((g - e.lg) * d - e.lk * dt) <= 2 * d
                                     /\ (x > 0) => (e.v0 > 0 \/ e.v1 > 0)
                                     /\ (x < 0) => (e.v0 < 0 \/ e.v1 < 0)
\* the value at sample n, in units of 1/sc rounded down (not for "exp")
ValueAt(e, n, c) ==
    LET d == e.t1 - e.t0 dt == TimeAt(n, c) - e.t0
    IN IF d <= 0 \/ e.k = "const" THEN (IF e.k = "rel" THEN e.v0 ELSE c.sc * e.v0)
       ELSE IF e.k = "rel" THEN (e.v0 * (d - dt)) \div d ELSE (c.sc * (e.v0 * d + (e.v1 - e.v0) * dt)) \div d
=============================================================================
