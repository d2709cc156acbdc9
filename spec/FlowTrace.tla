----------------------------- MODULE FlowTrace -----------------------------
EXTENDS TraceKit, Flow
VARIABLE s
Kind == Cfg.kind
\* times are in ticks of Cfg.unit nanoseconds
Frame(rate) == Npf(rate) \div Cfg.unit
\* inf <<rate, size, channels>>; pend; counters; latency statistics; clock; timer
Init == /\ KitInit
        /\ s = [inf |-> <<44100, 440, 1>>, pend |-> <<>>, val |-> IF Kind \in {"const", "scale", "add"} THEN Cfg.v0 ELSE 0, buf |-> <<>>,
                p |-> 0, n |-> 0, t |-> 5, st |-> 0, npf |-> Frame(44100), ch |-> 1, ts |-> 0,
                ot |-> 0, tt |-> 0, la |-> 0, sl |-> 0]

Single(x) == Len(x) = 1

TChain == Is("chain") /\ s' = [s EXCEPT !.inf = E.v]
TMix == /\ Is("mix") /\ E.n = Len(E.ins)
        /\ \A i \in DOMAIN E.ins : Single(E.ins[i])        \* every input was asked exactly once
        /\ E.out = Mixed(s.inf, [i \in DOMAIN E.ins |-> E.ins[i][1]])
        /\ UNCHANGED s
TUni == /\ Is("pull") /\ Kind = "uniform"
        /\ UniPulls(s.inf, s.pend, E.ins)
        /\ E.out = UniOut(s.inf, s.pend, E.ins)
        /\ s' = [s EXCEPT !.pend = UniRest(s.inf, s.pend, E.ins)]
\* what a measuring module of the caller's adds to a block when it is given its turn
Own(b) == IF Kind = "latency" /\ Cfg.own = 1 THEN Mk(b[1], b[2], [j \in 1..(Len(b) - 2) |-> b[j + 2] + 7]) ELSE b
Spent == IF Cfg.own = 1 THEN 3 ELSE 0
Count == /\ Single(E.ins) /\ E.out = Own(E.ins[1])
         /\ E.processed = s.p + 1 /\ E.samples = s.n + Len(E.ins[1]) - 2
TCount == /\ Is("pull") /\ Kind = "counter" /\ Count
          /\ s' = [s EXCEPT !.p = @ + 1, !.n = @ + Len(E.ins[1]) - 2]
\* a great many samples at once (E.samples leaves them out)
TFlood == Is("flood") /\ Kind = "counter" /\ E.processed = s.p + 256 /\ E.samples = s.n /\ s' = [s EXCEPT !.p = @ + 256]
TLat == /\ Is("pull") /\ Kind = "latency" /\ Count
        /\ LET b == E.ins[1]
               npf == Frame(b[2]) k == Len(b) - 2
               d == s.buf          \* the time this production took (announced by the tick before it)
               la == d - ChainTime(k, b[1], npf)
           IN s' = [s EXCEPT !.p = @ + 1, !.n = @ + k, !.npf = npf, !.ch = b[1], !.ts = @ + k,
                             !.ot = d, !.tt = @ + d, !.la = la, !.sl = @ + la, !.t = @ + d + Spent]
TCost == Is("cost") /\ s' = [s EXCEPT !.buf = E.n]
TReset == /\ Is("reset") /\ E.processed = 0 /\ E.samples = 0
          /\ s' = [s EXCEPT !.p = 0, !.n = 0, !.ts = 0, !.ch = 1, !.npf = 0, !.ot = 0, !.tt = 0, !.la = 0, !.sl = 0, !.st = s.t]
TStart == Is("start") /\ s' = [s EXCEPT !.st = s.t]
TTick == Is("tick") /\ s' = [s EXCEPT !.t = @ + E.n]
Avg(x) == IF s.p = 0 THEN 0 ELSE Trunc(x, s.p)
TStats == /\ Is("stats") /\ UNCHANGED s
          /\ E.processed = s.p /\ E.samples = s.n /\ E.start = s.st /\ E.elapsed = s.t - s.st
          /\ E.expected = ChainTime(s.ts, s.ch, s.npf)
          /\ E.time = s.ot /\ E.ttime = s.tt /\ E.lat = s.la /\ E.slat = s.sl
          /\ E.tlat = s.tt - ChainTime(s.ts, s.ch, s.npf)
          /\ E.atime = Avg(s.tt) /\ E.alat = Avg(s.sl)

TValue == Is("value") /\ E.get = E.v /\ s' = [s EXCEPT !.val = E.v]
TConst == /\ Is("pull") /\ Kind = "const"
          /\ E.out = Mk(s.inf[3], s.inf[1], [j \in 1..Need(s.inf) |-> s.val]) /\ UNCHANGED s
Map1(b, f(_)) == Mk(b[1], b[2], [j \in 1..(Len(b) - 2) |-> f(b[j + 2])])
TScale == LET f(x) == x * s.val IN
          Is("pull") /\ Kind = "scale" /\ Single(E.ins) /\ E.out = Map1(E.ins[1], f) /\ UNCHANGED s
TAdd == LET f(x) == x + s.val IN
        Is("pull") /\ Kind = "add" /\ Single(E.ins) /\ E.out = Map1(E.ins[1], f) /\ UNCHANGED s
TRbuf == Is("rbuf") /\ E.same = 1 /\ s' = [s EXCEPT !.buf = E.b]
TRep == Is("pull") /\ Kind = "repeat" /\ E.out = s.buf /\ UNCHANGED s

Tm(x) == /\ s' = x /\ E.npf = x.npf /\ E.ch = x.ch /\ E.s = x.ts /\ E.t = ChainTime(x.ts, x.ch, x.npf)
TTm == \/ Is("trate") /\ Tm([s EXCEPT !.npf = Frame(E.v)])
       \/ Is("tnpf") /\ Tm([s EXCEPT !.npf = E.v])
       \/ Is("tch") /\ Tm([s EXCEPT !.ch = E.v])
       \/ Is("tset") /\ Tm([s EXCEPT !.ts = E.v])
       \/ Is("tadd") /\ Tm([s EXCEPT !.ts = @ + E.v])
       \/ Is("treset") /\ Tm([s EXCEPT !.npf = 0, !.ch = 1, !.ts = 0])
       \/ Is("tq1") /\ E.t = E.v * s.npf /\ UNCHANGED s
       \/ Is("tq2") /\ E.t = ChainTime(E.v, E.c, s.npf) /\ UNCHANGED s
       \/ Is("tclock") /\ E.d = E.v /\ UNCHANGED s
Next == TChain \/ TMix \/ TUni \/ TCount \/ TFlood \/ TLat \/ TCost \/ TReset \/ TStart \/ TTick \/ TStats \/ TValue \/ TConst
        \/ TScale \/ TAdd \/ TRbuf \/ TRep \/ TTm
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
