----------------------------- MODULE DspTrace -----------------------------
EXTENDS TraceKit, Dsp
VARIABLE s
Init == KitInit /\ s = [ch |-> 1, rate |-> 0, k |-> <<>>, h |-> <<<<>>>>, sinc |-> FALSE, f |-> <<>>]
NearAll(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
TConv == /\ Is("conv") /\ UNCHANGED s
         /\ E.out = Conv(E.x, E.k) /\ E.len = LengthConv(Len(E.x), Len(E.k)) /\ E.len2 = E.len
Silence(n) == [c \in 1..n |-> <<>>]
TFir == Is("fir") /\ s' = [s EXCEPT !.ch = E.ch, !.rate = E.rate, !.k = E.k, !.h = Silence(E.ch), !.sinc = FALSE]
TSinc == Is("sinc") /\ s' = [s EXCEPT !.ch = 1, !.rate = E.rate, !.k = FilterKernel(E.type, E.p, E.q, E.m), !.h = Silence(1), !.sinc = TRUE]
TRestart == Is("restart") /\ s' = [s EXCEPT !.h = Silence(s.ch)]
TShape == Is("shape") /\ s' = [s EXCEPT !.ch = E.ch, !.rate = E.rate, !.h = Silence(E.ch)]
Sum(v) == Total([i \in 1..Len(v) |-> Abs(v[i])])
TBlock == /\ Is("block") /\ E.ch = s.ch /\ E.rate = s.rate /\ E.n = Len(E.x)
          /\ LET w == Weave([c \in 1..s.ch |-> FirBlock(s.h[c], Channel(E.x, s.ch, c), s.k)], Len(E.x) \div s.ch)
             IN (IF s.sinc THEN NearAll(E.out, w, 60 * (Sum(s.h[1]) + Sum(E.x)) + 2) ELSE E.out = w) = TRUE
          /\ s' = [s EXCEPT !.h = [c \in 1..s.ch |-> Keep(s.h[c], Channel(E.x, s.ch, c), Len(s.k) - 1)]]
TIir == /\ Is("iir") /\ s' = [s EXCEPT !.f = [a |-> E.a, b |-> E.b, xs |-> <<>>, ys |-> <<>>]]
        /\ E.na = Len(E.a) /\ E.nb = Len(E.b) /\ E.da = E.na /\ E.db = E.nb
TCoef == /\ Is("coef") /\ E.y = E.x
         /\ s' = IF E.k = "a" THEN [s EXCEPT !.f.a[E.i + 1] = E.x] ELSE [s EXCEPT !.f.b[E.i + 1] = E.x]
TRun == /\ Is("run") /\ E.kept = 1
        /\ LET r == IirRun(s.f, E.x, <<>>) IN E.out = r.o /\ s' = [s EXCEPT !.f = r.f]
TResp == Is("resp") /\ IsResponse(s.f, E.m, E.re, E.im) /\ UNCHANGED s
TPole == /\ Is("pole") /\ UNCHANGED s
         /\ LET x == ExpT[E.i + 1] half == (SC + x) \div 2
                a == IF E.k = "low" THEN <<SC - x>> ELSE <<half, -half>>
            IN /\ NearAll(E.a, a, 2) /\ NearAll(E.b, <<x>>, 2) /\ (E.fresh = 1 => Near(E.first, a[1], 3))
               /\ Near(E.r0, E.dc, 3) /\ Near(E.rn, E.ny, 3)
               /\ Near(E.dc, IF E.k = "low" THEN SC ELSE 0, 3)
               /\ Near(E.ny, IF E.k = "low" THEN ((SC - x) * 10000) \div ((SC + x) \div 10) ELSE SC, 30)
         /\ Near(E.hz, E.i * E.rate, 2)
Order(how, n) == CASE how \in {"dft", "dftb", "real", "realb"} -> [k \in 1..LengthFt(n) |-> k - 1]
                   [] how \in {"in", "iin"} -> [k \in 1..n |-> BitRev(k - 1, n)]
                   [] OTHER -> [k \in 1..n |-> k - 1]
TFt == /\ Is("ft") /\ UNCHANGED s
       /\ LET r == E.how \in {"dft", "dftb", "real", "realb"} n == Len(E.x)
              x == IF r THEN [i \in 1..n |-> <<E.x[i][1], 0>>] ELSE E.x
              sg == IF E.how \in {"iout", "iin", "iinrev"} THEN 1 ELSE -1
              o == Order(E.how, n) t == Weight(x) \div 2 + 2
          IN /\ E.half = LengthFt(n) /\ Len(E.out) = Len(o)
             /\ \A k \in 1..Len(o) : Near(E.out[k][1], DftRe(x, o[k], sg), t) /\ Near(E.out[k][2], DftIm(x, o[k], sg), t)
TIft == /\ Is("ift") /\ UNCHANGED s
        /\ E.n = LengthIft(Len(E.x)) /\ Len(E.out) = E.n
        /\ LET t == Weight(E.x) + 2 IN \A i \in 1..E.n : Near(E.out[i], IdftAt(E.x, i - 1), t)
TTrip == Is("trip") /\ UNCHANGED s /\ E.out = E.x
TBitRev == Is("bitrev") /\ UNCHANGED s /\ E.v = [i \in 1..E.n |-> BitRev(i - 1, E.n)]
TFtLen == Is("ftlen") /\ UNCHANGED s /\ E.f = LengthFt(E.n) /\ E.b = LengthIft(E.n)
TBin == Is("bin") /\ UNCHANGED s /\ Near(E.hz, E.i * E.rate, 1)
TWin == /\ Is("win") /\ UNCHANGED s /\ Len(E.v) = E.d + 1
        /\ \A i \in 0..E.d : Near(E.v[i + 1], Window(E.w, E.p, i, E.d), 3) /\ Near(E.v[i + 1], E.v[E.d - i + 1], 1)
TKern == /\ Is("kern") /\ UNCHANGED s /\ E.sym = 1 /\ Near(E.sum, 1000000, 1)
         /\ NearAll(E.v, SincKernel(E.p, E.m, IF E.w = "black" THEN "blackman" ELSE "rect", 160), 40)
TInvert == Is("invert") /\ UNCHANGED s /\ E.out = Inverted(E.v, E.one) /\ E.outb = E.out
TReverse == Is("reverse") /\ UNCHANGED s /\ E.out = ReversedSpectrum(E.v) /\ E.outb = E.out
TDot == /\ Is("dot") /\ UNCHANGED s /\ LET d == Dot(E.x, E.y) IN E.d = d /\ E.b = d /\ E.i = d
        /\ E.m = [i \in 1..Len(E.x) |-> E.x[i] * E.y[i]] /\ E.c = [i \in 1..Len(E.x) |-> <<E.x[i], 0>>]
        /\ E.e = [i \in 1..(Len(E.x) \div 2) |-> <<E.x[2 * i - 1], E.x[2 * i]>>]
\* silence before anything else, however much of it, gives silence and leaves no trace
TIdle == Is("idle") /\ E.zero = 1 /\ s.f.xs = <<>> /\ s.f.ys = <<>> /\ UNCHANGED s
Next == TConv \/ TFir \/ TSinc \/ TRestart \/ TShape \/ TBlock \/ TIir \/ TIdle \/ TCoef \/ TRun \/ TResp \/ TPole \/ TFt \/ TIft \/ TTrip
        \/ TBitRev \/ TFtLen \/ TBin \/ TWin \/ TKern \/ TInvert \/ TReverse \/ TDot
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
