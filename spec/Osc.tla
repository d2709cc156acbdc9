-------------------------------- MODULE Osc --------------------------------
(* Oscillators.  A period is r units long (four per hertz of the sample      *)
(* rate, so that frequencies may be quarters of a hertz); position a of it   *)
(* gives the value of the wave in units of 1/SC.                             *)
EXTENDS Integers, Sequences, SequencesExt, Trig
Ratio(x, r) == LET q == x * 1000 IN (q \div r) * 100 + ((q % r) * 100) \div r
Sine(a, r) == LET q == a * Turn i == q \div r
              IN SinT(i) + ((SinT(i + 1) - SinT(i)) * (q % r)) \div r
Square(a, r) == IF 2 * a < r THEN SC ELSE -SC
Saw(a, r) == IF 2 * a < r THEN Ratio(2 * a, r) ELSE Ratio(2 * a - (2 * r), r)
Triangle(a, r) == IF 4 * a <= r THEN Ratio(4 * a, r)
                  ELSE IF 4 * a >= 3 * r THEN Ratio(4 * a - (4 * r), r) ELSE Ratio((2 * r) - (4 * a), r)
Wave(kind, a, r) == CASE kind = "sine" -> Sine(a, r) [] kind = "square" -> Square(a, r)
                      [] kind = "saw" -> Saw(a, r) [] OTHER -> Triangle(a, r)
\* where a wave jumps, and what it is just before
Jumps(kind, a, r) == (kind = "square" /\ (a = 0 \/ 2 * a = r)) \/ (kind = "saw" /\ 2 * a = r)

\* o: [kind, mod, ch, r, size, f, n (frames so far), acc (position of a modulated one)]
Fresh(kind, mod, ch, r, size, f) == [kind |-> kind, mod |-> mod, ch |-> ch, r |-> r, size |-> size, f |-> f, n |-> 0, acc |-> 0]
At(o, i) == (o.f * (o.n + i)) % o.r
\* positions of the frames of one buffer, fs the frequencies delivered for them
Glide(acc, fs, r) == FoldLeft(LAMBDA p, f : Append(p, (p[Len(p)] + f) % r), <<acc>>, fs)
Positions(o, fs) == IF o.mod THEN SubSeq(Glide(o.acc, fs, o.r), 1, Len(fs)) ELSE [i \in 1..o.size |-> At(o, i - 1)]
Plus(x, y) == x + y
Advance(o, fs) == IF o.mod THEN [o EXCEPT !.acc = FoldLeft(Plus, @, fs) % o.r] ELSE [o EXCEPT !.n = @ + o.size]
Phase(o) == IF o.mod THEN o.acc ELSE o.n
Resume(o, p) == IF o.mod THEN [o EXCEPT !.acc = p] ELSE [o EXCEPT !.n = p]
\* every channel of a frame has the same value
Buffer(o, fs) == LET p == Positions(o, fs) IN [i \in 1..(Len(p) * o.ch) |-> Wave(o.kind, p[((i - 1) \div o.ch) + 1], o.r)]
=============================================================================
