-------------------------------- MODULE Buf --------------------------------
(***************************************************************************)
(* Sample buffers, their iterators, and ring buffers.                      *)
(* A buffer is [v, ch, rate]: samples in memory order (interleaved), the   *)
(* number of channels and the sample rate.  Buffers hold whole frames.     *)
(* An iterator is [k, b, pos]: kind "seq" (channel by channel) or "inter"  *)
(* (frame by frame), the buffer and the index 0..size.                     *)
(* A ring is a sequence addressed by any integer.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Buffer(v, ch, rate) == [v |-> v, ch |-> ch, rate |-> rate]
Size(b) == Len(b.v)
Cap(b) == Size(b) \div b.ch
Zeros(n) == [i \in 1..n |-> 0]

\* the memory position (from 0) of channel c, sample s; and of an iterator index
FlatAt(b, c, s) == c + b.ch * s
Chan(k, b, i) == IF k = "seq" THEN i \div Cap(b) ELSE i % b.ch
Samp(k, b, i) == IF k = "seq" THEN i % Cap(b) ELSE i \div b.ch
Flat(k, b, i) == FlatAt(b, Chan(k, b, i), Samp(k, b, i))
IndexOf(k, b, c, s) == IF k = "seq" THEN c * Cap(b) + s ELSE s * b.ch + c

Val(k, b, i) == b.v[Flat(k, b, i) + 1]
Put(b, flat, x) == [b EXCEPT !.v[flat + 1] = x]
\* the values met by a traversal, forwards and backwards
Walk(k, b) == [i \in 1..Size(b) |-> Val(k, b, i - 1)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the traversal of one buffer written along the traversal of kind k of another one of at least its size
RECURSIVE PourFrom(_, _, _, _)
PourFrom(w, k, b, i) == IF i > Len(w) THEN b ELSE PourFrom(w, k, Put(b, Flat(k, b, i - 1), w[i]), i + 1)
Pour(w, k, b) == PourFrom(w, k, b, 1)

\* what a generic algorithm makes of the sequence of values it traverses
Sum(w) == FoldLeft(LAMBDA a, x : a + x, 0, w)
Altered(f, w, n, m) ==
    CASE f = "reverse" -> Rev(w)
      [] f = "rotate" -> SubSeq(w, n + 1, Len(w)) \o SubSeq(w, 1, n)
      [] f = "iota" -> [i \in 1..Len(w) |-> n + i - 1]
      [] f = "plus" -> [i \in 1..Len(w) |-> w[i] + n]
      [] f = "fill" -> [i \in 1..Len(w) |-> n]
      [] f = "fillto" -> [i \in 1..Len(w) |-> IF i <= n THEN m ELSE w[i]]
      [] f = "heap" -> SortSeq(w, <)
      [] f = "swap" -> [w EXCEPT ![n + 1] = w[m + 1], ![m + 1] = w[n + 1]]
      [] f = "shift" -> [i \in 1..Len(w) |-> IF i <= n THEN w[i] ELSE w[i - n]]
      [] f = "drop" -> [i \in 1..Len(w) |-> IF i <= Len(w) - n THEN w[i + n] ELSE w[i]]
      [] f = "swapr" -> [i \in 1..Len(w) |-> IF i <= n THEN w[i + n] ELSE IF i <= 2 * n THEN w[i - n] ELSE w[i]]
\* position (from 0) of the first element that satisfies P, or the end
First(w, P(_)) == LET S == {i \in 1..Len(w) : P(i)} IN IF S = {} THEN Len(w) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
FirstMax(w) == First(w, LAMBDA i : \A j \in 1..Len(w) : w[j] <= w[i])
FirstMin(w) == First(w, LAMBDA i : \A j \in 1..Len(w) : w[j] >= w[i])

Resized(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]

-----------------------------------------------------------------------------
\* A buffer as a matrix: channels are rows, samples are columns
MatAt(b, r, c) == b.v[FlatAt(b, r, c) + 1]
MatMul(a, b) == [i \in 1..(a.ch * Cap(b)) |->
                   Sum([k \in 1..Cap(a) |-> MatAt(a, (i - 1) % a.ch, k - 1) * MatAt(b, k - 1, (i - 1) \div a.ch)])]
-----------------------------------------------------------------------------
\* Rings: every integer names an element
RingPos(r, i) == ((i % Len(r)) + Len(r)) % Len(r)
RingGet(r, i) == r[RingPos(r, i) + 1]
RingPut(r, i, x) == [r EXCEPT ![RingPos(r, i) + 1] = x]
=============================================================================
