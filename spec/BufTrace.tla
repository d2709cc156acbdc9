----------------------------- MODULE BufTrace -----------------------------
(* Operations on real buffers, iterators and ring buffers against Buf.       *)
EXTENDS TraceKit, Buf
VARIABLE s
Init == KitInit /\ s = [b |-> [i \in 1..4 |-> Buffer(<<>>, 1, 44100)],
                        t |-> [i \in 1..3 |-> [k |-> "none", b |-> 1, p |-> 0]],
                        r |-> <<>>, rt |-> [i \in 1..2 |-> 0]]
Same(o, b) == o.v = b.v /\ o.ch = b.ch /\ o.rate = b.rate /\ o.n = Size(b) /\ o.cap = Cap(b)
Becomes(i, b) == s' = [s EXCEPT !.b[i] = b] /\ Same(E.o, b)
Cur == s.b[E.b]

TNew == Is("new") /\ Becomes(E.b, Buffer(E.v, E.ch, E.rate))
TCopy == Is("copy") /\ Becomes(E.to, Cur) /\ Same(E.src, Cur)
TMove == Is("move") /\ Becomes(E.to, Cur)
TAssign == Is("assign") /\ Becomes(E.b, [Cur EXCEPT !.v = E.v])
TResize == Is("resize") /\ Becomes(E.b, [Cur EXCEPT !.v = Resized(@, E.n)])
TReserve == Is("reserve") /\ Becomes(E.b, Cur)
TPush == Is("push") /\ Becomes(E.b, [Cur EXCEPT !.v = Append(@, E.n)])
TClear == Is("clear") /\ Becomes(E.b, [Cur EXCEPT !.v = <<>>])
TSetCh == Is("setch") /\ Becomes(E.b, [Cur EXCEPT !.ch = E.n])
TSetRate == Is("setrate") /\ Becomes(E.b, [Cur EXCEPT !.rate = E.n])
TPut == Is("put") /\ Becomes(E.b, Put(Cur, FlatAt(Cur, E.c, E.s), E.x))
TPutF == Is("putf") /\ Becomes(E.b, Put(Cur, E.i, E.x))
TGet == Is("get") /\ UNCHANGED s /\ LET x == Cur.v[FlatAt(Cur, E.c, E.s) + 1] IN E.x = x /\ E.y = x

KindOf(k) == IF k \in {"seq", "cseq", "rseq", "sqseq"} THEN "seq" ELSE "inter"
TDump == /\ Is("dump") /\ UNCHANGED s
         /\ LET k == KindOf(E.k) w == Walk(k, Cur)
            IN /\ E.v = (IF E.k \in {"rseq", "rinter"} THEN Rev(w) ELSE w)
               /\ (E.k \in {"seq", "inter", "range", "cseq", "cinter"} =>
                     /\ E.c = [i \in 1..Size(Cur) |-> Chan(k, Cur, i - 1)]
                     /\ E.s = [i \in 1..Size(Cur) |-> Samp(k, Cur, i - 1)]) = TRUE
TConv == Is("conv") /\ Becomes(E.to, Pour(Walk(E.k, Cur), E.k2, s.b[E.to]))

At(w, k, b, i) == /\ w.x = i
                  /\ (i \in 0..(Size(b) - 1) => w.c = Chan(k, b, i) /\ w.s = Samp(k, b, i) /\ w.v = Val(k, b, i)) = TRUE
TIt == /\ Is("it") /\ s' = [s EXCEPT !.t[E.t] = [k |-> E.k, b |-> E.b, p |-> E.p]] /\ At(E.w, E.k, Cur, E.p)
Target(f, k, b, p, n, m) ==
    CASE f \in {"inc", "pinc"} -> p + 1
      [] f \in {"dec", "pdec"} -> p - 1
      [] f \in {"add", "addu", "addl", "addz"} -> p + n
      [] f = "sub" -> p - n
      [] f = "set" -> n
      [] f = "pos" -> IndexOf(k, b, n, m)
      [] f = "chan" -> IF k = "seq" THEN IndexOf(k, b, n, 0) ELSE p
      [] f = "smp" -> IF k = "inter" THEN IndexOf(k, b, 0, n) ELSE p
      [] OTHER -> p
TIto == /\ Is("ito")
        /\ LET t == s.t[E.t] b == s.b[t.b]
               p == Target(E.f, t.k, b, t.p, E.n, E.m)
               b2 == CASE E.f = "write" -> Put(b, Flat(t.k, b, t.p), E.n)
                       [] E.f = "absw" -> Put(b, Flat(t.k, b, E.n), E.m)
                       [] OTHER -> b
               ret == CASE E.f \in {"pinc", "pdec"} -> t.p
                        [] E.f \in {"plus", "plusu", "plusl", "plusz"} -> t.p + E.n
                        [] E.f = "minus" -> t.p - E.n
                        [] OTHER -> p
           IN /\ s' = [s EXCEPT !.t[E.t].p = p, !.b[t.b] = b2]
              /\ Same(E.o, b2) /\ At(E.w, t.k, b2, p) /\ At(E.r, t.k, b2, ret)
              /\ (E.f = "abs" => E.v = Val(t.k, b, E.n)) = TRUE
Bit(x) == IF x THEN 1 ELSE 0
TItc == /\ Is("itc") /\ UNCHANGED s
        /\ LET p == s.t[E.t].p q == s.t[E.u].p
           IN /\ E.q = <<Bit(p = q), Bit(p # q), Bit(p < q), Bit(p > q), Bit(p <= q), Bit(p >= q)>>
              /\ E.d = p - q /\ E.ci = p
TAlg == /\ Is("alg") /\ Becomes(E.b, Pour(Altered(E.f, Walk(E.k, Cur), E.n, E.m), E.k, Cur))
TAsk == /\ Is("ask") /\ UNCHANGED s
        /\ LET w == Walk(KindOf(E.k), Cur) n == Len(w)
           IN /\ E.sum = Sum(w) /\ E.dist = n /\ E.max = FirstMax(w) /\ E.min = FirstMin(w)
              /\ E.find = First(w, LAMBDA i : w[i] = E.n) /\ E.count = Cardinality({i \in 1..n : w[i] = E.n})
              /\ E.adj = First(w, LAMBDA i : i < n /\ w[i] = w[i + 1])
              /\ E.sorted = Bit(\A i \in 1..(n - 1) : w[i] <= w[i + 1])
              /\ E.dot = Sum([i \in 1..n |-> w[i] * w[i]]) /\ E.eq = 1
              /\ E.vec = w /\ E.rev = Rev(w) /\ E.back = Rev(w)
              /\ E.plus = [i \in 1..(4 * n) |-> w[((i - 1) \div 4) + 1]]
TMul == Is("mul") /\ Becomes(E.to, [s.b[E.to] EXCEPT !.v = MatMul(Cur, s.b[E.u]), !.ch = Cur.ch])
\* the product of matrices of other elements, into a matrix that held something else
TMulK == /\ Is("mulk") /\ UNCHANGED s
         /\ LET p == MatMul(Buffer(E.x, E.ra, 0), Buffer(E.y, E.rb, 0))
            IN E.v = p /\ E.ch = E.ra /\ E.cap = Len(E.y) \div E.rb
TTyped == /\ Is("typed") /\ UNCHANGED s
          /\ LET z == Buffer(E.v, E.ch, E.rate)
                 b == IF E.how = "seqw" THEN Pour(E.v, "seq", z) ELSE z
                 w == Walk("seq", b)
             IN /\ E.n = Size(b) /\ E.cap = Cap(b) /\ E.nch = E.ch /\ E.gr = E.rate
                /\ E.cells = b.v /\ E.inter = b.v /\ E.cinter = b.v /\ E.cidx = b.v /\ E.rinter = Rev(b.v)
                /\ E.seq = w /\ E.cseq = w /\ E.ptrs = w /\ E.rseq = Rev(w) /\ E.range = b.v
TStatic == /\ Is("static") /\ UNCHANGED s
           /\ LET b == Buffer([i \in 1..E.SIZE |-> i + E.rep], E.ch, E.rate)
              IN /\ E.n = E.SIZE /\ E.cap = Cap(b) /\ E.nch = b.ch
                 /\ E.seq = Walk("seq", b) /\ E.inter = b.v /\ E.rseq = Rev(Walk("seq", b)) /\ E.rinter = Rev(b.v)
                 /\ E.cpy = [b.v EXCEPT ![1] = -1]
-----------------------------------------------------------------------------
TRing == Is("ring") /\ s' = [s EXCEPT !.r = E.v] /\ E.n = Len(E.v)
TRCopy == Is("rcopy") /\ E.same = 1 /\ UNCHANGED s
TRPut == Is("rput") /\ s' = [s EXCEPT !.r = RingPut(@, E.i, E.x)]
TRGet == Is("rget") /\ E.x = RingGet(s.r, E.i) /\ UNCHANGED s
TRResize == Is("rresize") /\ s' = [s EXCEPT !.r = Resized(@, E.n)] /\ E.size = E.n
TRReserve == Is("rreserve") /\ E.size = Len(s.r) /\ UNCHANGED s
TRDump == Is("rdump") /\ E.v = s.r /\ E.size = Len(s.r) /\ UNCHANGED s
TRit == Is("rit") /\ s' = [s EXCEPT !.rt[E.t] = E.p] /\ E.x = E.p /\ E.v = RingGet(s.r, E.p)
TRito == /\ Is("rito")
         /\ LET t == s.rt[E.t]
                p == Target(E.f, "ring", Buffer(<<>>, 1, 0), t, E.n, 0)
                r2 == IF E.f = "write" THEN RingPut(s.r, t, E.n) ELSE s.r
                ret == CASE E.f \in {"pinc", "pdec"} -> t [] E.f = "plus" -> t + E.n [] E.f = "minus" -> t - E.n
                         [] E.f = "abs" -> E.n [] OTHER -> p
            IN /\ s' = [s EXCEPT !.rt[E.t] = p, !.r = r2]
               /\ E.x = p /\ E.v = RingGet(r2, p) /\ E.rx = ret /\ E.rv = RingGet(r2, ret)
               /\ (E.f = "abs" => E.av = RingGet(r2, E.n)) = TRUE
Next == TNew \/ TCopy \/ TMove \/ TAssign \/ TResize \/ TReserve \/ TPush \/ TClear \/ TSetCh \/ TSetRate \/ TPut
        \/ TPutF \/ TGet \/ TDump \/ TConv \/ TIt \/ TIto \/ TItc \/ TStatic \/ TAlg \/ TAsk \/ TTyped \/ TMul \/ TMulK
        \/ TRing \/ TRCopy \/ TRPut \/ TRGet \/ TRResize \/ TRReserve \/ TRDump \/ TRit \/ TRito
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
