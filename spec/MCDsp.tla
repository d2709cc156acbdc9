------------------------------- MODULE MCDsp -------------------------------
(* A filtered stream of one or two channels cut into blocks in every way, as *)
(* specified and as computed with kept tails, and a recursive filter as      *)
(* specified and as computed with rings.                                     *)
EXTENDS Dsp, Json, TLC
KVals == {-1, 0, 2}
WideVals == {-3, 0, 1, 5}
CONSTANTS Vals, MaxK, MaxFrames, MaxSteps, Gen
VARIABLES ch, k, h, tail, x, y, f, rin, rout, ix, ok, steps, hist
vars == <<ch, k, h, tail, x, y, f, rin, rout, ix, ok, steps, hist>>
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Fresh(c, q) == /\ ch' = c /\ k' = q /\ h' = [i \in 1..c |-> <<>>] /\ tail' = <<>> /\ x' = <<>> /\ y' = <<>>
NoIir == UNCHANGED <<f, rin, rout, ix>>
NoFir == UNCHANGED <<ch, k, h, tail, x, y>>
Init == /\ ch = 1 /\ k = <<1>> /\ h = <<<<>>>> /\ tail = <<>> /\ x = <<>> /\ y = <<>>
        /\ f = [a |-> <<1>>, b |-> <<>>, xs |-> <<>>, ys |-> <<>>] /\ rin = <<0>> /\ rout = <<0>> /\ ix = 1
        /\ ok = TRUE /\ steps = 0 /\ hist = <<>>
Kernel == /\ Tick /\ \E c \in 1..2, q \in Seqs(KVals, MaxK) \ {<<>>} : Fresh(c, q) /\ H(<<"kernel", c, q>>)
          /\ UNCHANGED ok /\ NoIir
Spread == [i \in 1..((Len(k) - 1) * ch + 1) |-> IF (i - 1) % ch = 0 THEN k[(i - 1) \div ch + 1] ELSE 0]
\* the computation: convolve the interleaved block with the spread kernel, add the tail, keep what hangs over
Computed(b) == LET s == Conv(b, Spread) IN [i \in 1..Len(s) |-> s[i] + At(tail, i)]
Block == /\ Tick /\ \E n \in 0..MaxFrames : \E b \in [1..(n * ch) -> Vals] :
             LET want == Weave([c \in 1..ch |-> FirBlock(h[c], Channel(b, ch, c), k)], n)
                 s == Computed(b)
             IN /\ h' = [c \in 1..ch |-> Keep(h[c], Channel(b, ch, c), Len(k) - 1)]
                /\ x' = x \o b /\ y' = y \o want
                /\ tail' = SubSeq(s, Len(b) + 1, Len(s))
                /\ ok' = (ok /\ SubSeq(s, 1, Len(b)) = want)
                /\ H(<<"block", b>>)
         /\ UNCHANGED <<ch, k>> /\ NoIir
Zeros(n) == [i \in 1..n |-> 0]
Larger(a, b) == IF a > b THEN a ELSE b
IirNew == /\ Tick /\ \E a \in Seqs(KVals, 2) \ {<<>>}, b \in Seqs(KVals, 2) :
             /\ f' = [a |-> a, b |-> b, xs |-> <<>>, ys |-> <<>>]
             /\ rin' = Zeros(Larger(1, Len(a))) /\ rout' = Zeros(Larger(1, Len(b))) /\ ix' = Larger(Len(a), Len(b))
             /\ H(<<"iir", a, b>>)
          /\ UNCHANGED ok /\ NoFir
Ring(r, i) == r[(i % Len(r)) + 1]
IirX == /\ Tick /\ \E v \in Vals :
            LET g == IirStep(f, v)
                ri == [rin EXCEPT ![(ix % Len(rin)) + 1] = v]
                o == Total([i \in 1..Len(f.a) |-> f.a[i] * Ring(ri, ix - i + 1)])
                     + Total([i \in 1..Len(f.b) |-> f.b[i] * Ring(rout, ix - i)])
            IN /\ f' = g /\ rin' = ri /\ rout' = [rout EXCEPT ![(ix % Len(rout)) + 1] = o] /\ ix' = ix + 1
               /\ ok' = (ok /\ o = g.ys[1]) /\ H(<<"x", v>>)
        /\ NoFir
NextFir == Kernel \/ Block
NextIir == IirNew \/ IirX
SpecFir == Init /\ [][NextFir]_vars
SpecIir == Init /\ [][NextIir]_vars
SpecGen == Init /\ [][NextFir \/ NextIir]_vars
View == <<ch, k, h, tail, x, y, f, rin, rout, ix, ok, steps>>
\* the blocks put together are the start of the convolution of the whole stream
Whole == \A c \in 1..ch : LET xc == Channel(x, ch, c) yc == Channel(y, ch, c) IN
           yc = SubSeq(Conv(xc, k), 1, Len(xc))
Computes == ok
Commutes == \A c \in 1..ch : LET xc == Channel(x, ch, c) IN xc # <<>> => Conv(xc, k) = Conv(k, xc)
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
=============================================================================
