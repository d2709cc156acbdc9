----------------------------- MODULE MCFourier -----------------------------
(* The radix-2 recursions over the integers modulo 17, which have roots of   *)
(* unity of order 1, 2, 4, 8 and 16: they are the transform, in order or in  *)
(* bit-reversed order, and undo each other.                                  *)
EXTENDS Dsp, FiniteSets, TLC
CONSTANTS Wide
VARIABLES N, x
P == 17
Root(n) == CASE n = 1 -> 1 [] n = 2 -> 16 [] n = 4 -> 13 [] n = 8 -> 9 [] OTHER -> 3
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE (b * Pow(b, e - 1)) % P
W(n, e) == Pow(Root(n), e % n)
\* the inverse takes conjugate roots
Dft(v, sg) == [k \in 1..Len(v) |-> Total([j \in 1..Len(v) |-> v[j] * W(Len(v), sg * (k - 1) * (j - 1))]) % P]
RECURSIVE Dit(_, _)
Dit(v, sg) == IF Len(v) = 1 THEN v
  ELSE LET m == Len(v) \div 2
           e == Dit([i \in 1..m |-> v[2 * i - 1]], sg) o == Dit([i \in 1..m |-> v[2 * i]], sg)
       IN [i \in 1..(2 * m) |-> IF i <= m THEN (e[i] + W(2 * m, sg * (i - 1)) * o[i]) % P
                                ELSE (e[i - m] + (P - 1) * W(2 * m, sg * (i - m - 1)) * o[i - m]) % P]
RECURSIVE Dif(_, _)
Dif(v, sg) == IF Len(v) = 1 THEN v
  ELSE LET m == Len(v) \div 2
       IN Dif([i \in 1..m |-> (v[i] + v[i + m]) % P], sg)
          \o Dif([i \in 1..m |-> ((v[i] + (P - 1) * v[i + m]) * W(2 * m, sg * (i - 1))) % P], sg)
Swapped(v) == [i \in 1..Len(v) |-> v[BitRev(i - 1, Len(v)) + 1]]
Inv(n) == CHOOSE q \in 1..(P - 1) : (q * n) % P = 1
Sizes == {1, 2, 4, 8, 16}
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
\* the transforms are linear: unit vectors decide them; a few sums and all short vectors besides
Some(n) == {Unit(n, j) : j \in 1..n} \cup {[i \in 1..n |-> (i * i + q) % P] : q \in 0..3}
           \cup (IF n <= Wide THEN [1..n -> {0, 1, 5, 16}] ELSE {})
Init == N \in Sizes /\ x \in Some(N)
Next == FALSE /\ UNCHANGED <<N, x>>
Spec == Init /\ [][Next]_<<N, x>>
Primitive == W(N, N) = 1 /\ \A e \in 1..(N - 1) : W(N, e) # 1
OutOfPlace == \A sg \in {1, -1} : Dit(x, sg) = Dft(x, sg)
InPlace == \A sg \in {1, -1} : Swapped(Dif(x, sg)) = Dft(x, sg)
Undone == \A sg \in {1, -1} : LET back == Dit(Dit(x, sg), -sg) IN \A i \in 1..N : (back[i] * Inv(N)) % P = x[i]
BitReversal == /\ {BitRev(i, N) : i \in 0..(N - 1)} = 0..(N - 1)
               /\ \A i \in 0..(N - 1) : BitRev(BitRev(i, N), N) = i
\* multiplying spectra convolves circularly
Circular == LET d == Dft(x, 1) k == [i \in 1..N |-> (3 * i + 1) % P] e == Dft(k, 1)
                c == [n \in 1..N |-> Total([j \in 1..N |-> x[j] * k[((n - j) % N) + 1]]) % P]
            IN Dft(c, 1) = [i \in 1..N |-> (d[i] * e[i]) % P]
\* the tables are what they should be
Tables == /\ \A i \in 0..Turn : Near((CosT(i) \div 10) * (CosT(i) \div 10) + (SinT(i) \div 10) * (SinT(i) \div 10), 100000000, 40000)
          /\ \A i \in 0..720 : SinT(i) = CosT(720 - i) /\ SinT(-i) = -SinT(i) /\ CosT(i + 1440) = -CosT(i)
\* windows: symmetric, one in the middle, the Hann window closed at its ends; the kernels pass or stop a constant
Divs == {2, 4, 6, 8, 10, 12, 16, 20, 24, 30, 32, 40, 60, 64}
Windows == \A d \in Divs : \A w \in {<<"hann", 500>>, <<"hamming", 540>>, <<"black", 160>>} :
             /\ \A i \in 0..d : Near(Window(w[1], w[2], i, d), Window(w[1], w[2], d - i, d), 2) /\ Window(w[1], w[2], i, d) >= -2
             /\ Near(Window(w[1], w[2], d \div 2, d), SC, 2)
             /\ Near(Window(w[1], w[2], 0, d), IF w[1] = "hamming" THEN 8000 ELSE 0, 2)
Kernels == \A m \in {13, 25, 41}, p \in {100, 500, 900}, t \in {"low", "high", "pass", "reject"} :
             LET k == FilterKernel(t, p, p + 200, m)
             IN /\ Near(Total(k), IF t \in {"low", "reject"} THEN SC ELSE 0, 30 * m)
                /\ \A i \in 1..m : k[i] = k[m - i + 1]
                /\ Inverted(Inverted(k, SC), SC) = k
=============================================================================
