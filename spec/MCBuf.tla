------------------------------- MODULE MCBuf -------------------------------
(* A buffer, a copy of it, an iterator of either kind and a ring under every *)
(* sequence of operations within the bounds.                                 *)
EXTENDS Buf, Json
CONSTANTS MaxFrames, MaxCh, MaxSteps, Gen
VARIABLES b, it, r, rpos, steps, hist
vars == <<b, it, r, rpos, steps, hist>>

H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Fresh == [i \in 1..40 |-> 100 + i]
Init == /\ b = Buffer(<<>>, 1, 44100) /\ it = [k |-> "seq", pos |-> 0]
        /\ r = <<1>> /\ rpos = 0 /\ steps = 0 /\ hist = <<>>
New == /\ Tick /\ \E f \in 0..MaxFrames, c \in 1..MaxCh :
            /\ b' = Buffer(SubSeq(Fresh, 1, f * c), c, 8000) /\ H(<<"new", f, c>>)
            /\ it' = [k |-> "seq", pos |-> 0]
       /\ UNCHANGED <<r, rpos>>
Resize == /\ Tick /\ \E f \in 0..MaxFrames : b' = [b EXCEPT !.v = Resized(@, f * b.ch)] /\ H(<<"resize", f>>)
          /\ it' = [it EXCEPT !.pos = 0] /\ UNCHANGED <<r, rpos>>
Rechan == /\ Tick /\ \E c \in 1..MaxCh : Size(b) % c = 0 /\ b' = [b EXCEPT !.ch = c] /\ H(<<"setch", c>>)
          /\ it' = [it EXCEPT !.pos = 0] /\ UNCHANGED <<r, rpos>>
ItNew == /\ Tick /\ \E k \in {"seq", "inter"}, p \in 0..Size(b) : it' = [k |-> k, pos |-> p] /\ H(<<"it", k, p>>)
         /\ UNCHANGED <<b, r, rpos>>
ItMove == /\ Tick /\ \E n \in -3..3 : /\ it.pos + n \in 0..Size(b) /\ it' = [it EXCEPT !.pos = @ + n]
                                      /\ H(<<"move", n>>)
          /\ UNCHANGED <<b, r, rpos>>
ItSet == /\ Tick /\ Size(b) > 0 /\ \E c \in 0..(b.ch - 1), s \in 0..(Cap(b) - 1) :
               it' = [it EXCEPT !.pos = IndexOf(it.k, b, c, s)] /\ H(<<"pos", c, s>>)
         /\ UNCHANGED <<b, r, rpos>>
ItWrite == /\ Tick /\ it.pos < Size(b) /\ b' = Put(b, Flat(it.k, b, it.pos), steps + 1) /\ H(<<"write", steps + 1>>)
           /\ UNCHANGED <<it, r, rpos>>
\* a generic algorithm along either traversal; iterators stay where they are
Alg == /\ Tick /\ Size(b) > 0
       /\ \E k \in {"seq", "inter"}, f \in {"reverse", "rotate", "heap", "swap", "drop"}, n \in 0..(Size(b) - 1), m \in {0} :
            /\ (f \in {"reverse", "heap"} => n = 0) /\ b' = Pour(Altered(f, Walk(k, b), n, m), k, b) /\ H(<<"alg", k, f, n, m>>)
       /\ UNCHANGED <<it, r, rpos>>
RNew == /\ Tick /\ \E n \in 1..3 : r' = SubSeq(Fresh, 1, n) /\ H(<<"ring", n>>) /\ rpos' = 0
        /\ UNCHANGED <<b, it>>
RPut == /\ Tick /\ \E i \in -5..5 : r' = RingPut(r, i, steps + 1) /\ H(<<"rput", i, steps + 1>>)
        /\ UNCHANGED <<b, it, rpos>>
RMove == /\ Tick /\ \E n \in {-2, -1, 1, 2} : rpos' = rpos + n /\ H(<<"rmove", n>>) /\ UNCHANGED <<b, it, r>>
RWrite == /\ Tick /\ r' = RingPut(r, rpos, steps + 1) /\ H(<<"rwrite", steps + 1>>) /\ UNCHANGED <<b, it, rpos>>
Next == New \/ Resize \/ Rechan \/ ItNew \/ ItMove \/ ItSet \/ ItWrite \/ Alg \/ RNew \/ RPut \/ RMove \/ RWrite
Spec == Init /\ [][Next]_vars
View == <<b, it, r, rpos, steps>>

\* both traversals meet every memory position exactly once, a channel's samples in order of time
Permutes == \A k \in {"seq", "inter"} : {Flat(k, b, i) : i \in 0..(Size(b) - 1)} = 0..(Size(b) - 1)
InOrder == \A k \in {"seq", "inter"}, i, j \in 0..(Size(b) - 1) :
             (i < j /\ Chan(k, b, i) = Chan(k, b, j)) => Samp(k, b, i) < Samp(k, b, j)
\* memory order is the interleaved order
Memory == Walk("inter", b) = b.v
\* setting a position and asking for it are inverse
PosInverse == (Size(b) > 0) => \A k \in {"seq", "inter"} :
             /\ \A i \in 0..(Size(b) - 1) : IndexOf(k, b, Chan(k, b, i), Samp(k, b, i)) = i
             /\ \A c \in 0..(b.ch - 1), s \in 0..(Cap(b) - 1) :
                  LET i == IndexOf(k, b, c, s) IN Chan(k, b, i) = c /\ Samp(k, b, i) = s
\* what is written through one view is read through the other, nothing else changes
OneMemory == \A k \in {"seq", "inter"}, q \in {"seq", "inter"}, i, j \in 0..(Size(b) - 1) :
               Val(q, Put(b, Flat(k, b, i), 7777), j) =
                  IF Chan(k, b, i) = Chan(q, b, j) /\ Samp(k, b, i) = Samp(q, b, j) THEN 7777 ELSE Val(q, b, j)
\* what is written along a traversal is read along it
ReadBack == \A k \in {"seq", "inter"} : LET w == [i \in 1..Size(b) |-> 10 * i] IN Walk(k, Pour(w, k, b)) = w
\* what the algorithms promise: reversal and rotation move every value, sorting orders them, swapping is its own inverse
Promised == \A k \in {"seq", "inter"} :
               LET w == Walk(k, b) n == Len(w)
               IN /\ Altered("reverse", Altered("reverse", w, 0, 0), 0, 0) = w
                  /\ (n > 0) => \A i \in 0..(n - 1) :
                        /\ Altered("rotate", Altered("rotate", w, i, 0), n - i, 0) = w
                        /\ Altered("swap", Altered("swap", w, i, 0), i, 0) = w
                        /\ Sum(Altered("swap", w, i, n - 1)) = Sum(w)
                  /\ LET h == Altered("heap", w, 0, 0)
                     IN /\ \A i \in 1..(n - 1) : h[i] <= h[i + 1]
                        /\ \A x \in Range(w) : Cardinality({i \in 1..n : w[i] = x}) = Cardinality({i \in 1..n : h[i] = x})
\* a ring repeats itself with its size as period, in both directions
Period == \A i \in -7..7 : /\ RingGet(r, i) = RingGet(r, i + Len(r))
                           /\ i \in 0..(Len(r) - 1) => RingGet(r, i) = r[i + 1]
                           /\ RingGet(RingPut(r, i, 7777), i - Len(r)) = 7777
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
=============================================================================
