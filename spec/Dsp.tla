------------------------------- MODULE Dsp -------------------------------
(***************************************************************************)
(* Signal processing on integer samples: convolution, streams filtered     *)
(* block by block, recursive filters, Fourier transforms, windows and      *)
(* kernels.  Everything is stated from the definition (sums over all       *)
(* terms), not from the algorithm that computes it.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Trig
At(v, i) == IF i \in 1..Len(v) THEN v[i] ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == x - y <= t /\ y - x <= t
Add(a, b) == a + b
Total(f) == FoldLeft(Add, 0, f)

\* ---- convolution ----
LengthConv(n, m) == n + m - 1
ConvAt(x, k, n) == Total([j \in 1..Len(k) |-> k[j] * At(x, n - j + 1)])
Conv(x, k) == [n \in 1..LengthConv(Len(x), Len(k)) |-> ConvAt(x, k, n)]

\* ---- one block of a stream: h is what came before, all channels on their own ----
Channel(v, ch, c) == [i \in 1..(Len(v) \div ch) |-> v[(i - 1) * ch + c]]
Weave(vs, n) == LET ch == Len(vs) IN [i \in 1..(n * ch) |-> vs[((i - 1) % ch) + 1][(i - 1) \div ch + 1]]
FirBlock(h, x, k) == LET w == h \o x IN [n \in 1..Len(x) |-> ConvAt(w, k, Len(h) + n)]
Keep(h, x, m) == LET w == h \o x IN IF Len(w) <= m THEN w ELSE SubSeq(w, Len(w) - m + 1, Len(w))

\* ---- recursive filters: xs, ys hold the past, newest first ----
IirStep(f, x) == LET xs == <<x>> \o f.xs
                     y == Total([i \in 1..Len(f.a) |-> f.a[i] * At(xs, i)]) + Total([i \in 1..Len(f.b) |-> f.b[i] * At(f.ys, i)])
                     Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
                 IN [f EXCEPT !.xs = Cut(xs, 8), !.ys = Cut(<<y>> \o @, 8)]
RECURSIVE IirRun(_, _, _)
IirRun(f, x, o) == IF x = <<>> THEN [f |-> f, o |-> o]
                   ELSE LET g == IirStep(f, Head(x)) IN IirRun(g, Tail(x), Append(o, g.ys[1]))

\* gain and phase at m/Turn of the rate: the number R in thousandths for which R * (1 - B) is A, where A and B are the sums
\* of the coefficients turned back by their delays
Turned(c, d, m) == <<Total([j \in 1..Len(c) |-> c[j] * (CosT(((j - 1 + d) * m) % Turn) \div 100)]),
                     Total([j \in 1..Len(c) |-> -(c[j] * (SinT(((j - 1 + d) * m) % Turn) \div 100))])>>
IsResponse(f, m, re, im) ==
    LET A == Turned(f.a, 0, m) b == Turned(f.b, 1, m) B == <<1000 - b[1], -b[2]>>
        t == 2000 * (Total([j \in 1..Len(f.a) |-> Abs(f.a[j])]) + 1) + Abs(B[1]) + Abs(B[2])
             + 2 * (Abs(re) + Abs(im)) * (Total([j \in 1..Len(f.b) |-> Abs(f.b[j])]) + 1)
    IN Near(re * B[1] - im * B[2], 1000 * A[1], t) /\ Near(re * B[2] + im * B[1], 1000 * A[2], t)

\* ---- Fourier: x is a sequence of <<re, im>>, values in units of 1/SC, N a divisor of Turn ----
LengthFt(n) == n \div 2 + 1
LengthIft(n) == (n - 1) * 2
Ang(k, n, N) == ((k * n) % N) * (Turn \div N)
DftRe(x, k, sg) == LET N == Len(x) IN Total([n \in 1..N |-> x[n][1] * CosT(Ang(k, n - 1, N)) - sg * x[n][2] * SinT(Ang(k, n - 1, N))])
DftIm(x, k, sg) == LET N == Len(x) IN Total([n \in 1..N |-> sg * x[n][1] * SinT(Ang(k, n - 1, N)) + x[n][2] * CosT(Ang(k, n - 1, N))])
Weight(x) == Total([n \in 1..Len(x) |-> Abs(x[n][1]) + Abs(x[n][2])])
\* real signal of an (n/2+1)-bin half spectrum, times its length
IdftAt(X, i) == LET K == Len(X) N == LengthIft(K)
                IN Total([k \in 1..K |-> (IF k = 1 \/ k = K THEN 1 ELSE 2)
                          * (X[k][1] * CosT(Ang(k - 1, i, N)) - (IF k = 1 \/ k = K THEN 0 ELSE X[k][2] * SinT(Ang(k - 1, i, N))))])
RECURSIVE Reversed(_, _, _)
Reversed(i, n, acc) == IF n = 1 THEN acc ELSE Reversed(i \div 2, n \div 2, 2 * acc + (i % 2))
BitRev(i, n) == Reversed(i, n, 0)

\* ---- windows: position n of 0..d, d a divisor of Turn, in units of 1/SC ----
Cosine(n, d, m) == CosT(((n * m) % d) * (Turn \div d))

\* a0, alpha in thousandths
Hann(n, d, a0) == a0 * 100 - (((1000 - a0) * Cosine(n, d, 1)) \div 1000)
Blackman(n, d, al) == (1000 - al) * 50 - (Cosine(n, d, 1) \div 2) + ((al * Cosine(n, d, 2)) \div 2000)
Window(kind, p, n, d) == CASE kind = "rect" -> SC [] kind \in {"hann", "hamming"} -> Hann(n, d, p) [] OTHER -> Blackman(n, d, p)

\* ---- windowed sinc of odd length m passing what is below p/Turn of the rate ----
Times(a, b) == ((a \div 1000) * b + ((a % 1000) * b) \div 1000 + 50) \div 100
Share(a, s) == LET q == a * 10000 IN (q \div s) * 10 + ((q % s) * 10 + s \div 2) \div s
SincT(p, h) == IF h = 0 THEN SC ELSE (((SinT(p * h) * Turn) \div (p * h)) * 113) \div 710
RawSinc(p, m, i, win, par) == LET c == (m - 1) \div 2 h == Abs(i - c) IN Times(SincT(p, h), Window(win, par, i, m - 1))
SincSum(p, m, win, par) == Total([i \in 1..m |-> RawSinc(p, m, i - 1, win, par)])
SincKernel(p, m, win, par) == LET s == SincSum(p, m, win, par) IN [i \in 1..m |-> Share(RawSinc(p, m, i - 1, win, par), s)]
\* all-pass minus the kernel, with one = the unit of the samples
Inverted(v, one) == [i \in 1..Len(v) |-> IF i = Len(v) \div 2 + 1 THEN one - v[i] ELSE -v[i]]
ReversedSpectrum(v) == [i \in 1..Len(v) |-> IF i % 2 = 1 THEN -v[i] ELSE v[i]]
FilterKernel(type, p, q, m) ==
    LET lo == SincKernel(p, m, "blackman", 160) hi == Inverted(SincKernel(q, m, "blackman", 160), SC)
        br == [i \in 1..m |-> lo[i] + hi[i]]
    IN CASE type = "low" -> lo [] type = "high" -> Inverted(lo, SC) [] type = "reject" -> br [] OTHER -> Inverted(br, SC)
Dot(a, b) == Total([i \in 1..Len(a) |-> a[i] * b[i]])
=============================================================================
