----------------------------- MODULE EnvTrace -----------------------------
EXTENDS TraceKit, Env
VARIABLE s
Kind == Cfg.kind
Init == /\ KitInit
        /\ s = [c |-> [npf |-> 22675, ch |-> 1, sc |-> Cfg.sc], n |-> 440, ch |-> 1, rate |-> 44100, sv |-> 0,
                us |-> <<>>, idx |-> 0, smp |-> 0, dt |-> 0, dur |-> 0, rel |-> -1, st |-> 0, fin |-> 0, begun |-> 0]
Pl == Played(s.us, s.sv)
CurOk(pl, i) == E.cur = pl[i].u

TTimer == Is("timer") /\ s' = [s EXCEPT !.c.npf = E.npf, !.c.ch = E.ch]
TInfo == Is("info") /\ s' = [s EXCEPT !.n = E.n, !.ch = E.ch, !.rate = E.rate]
TStartV == Is("startv") /\ s' = [s EXCEPT !.sv = E.v]
TSeek == Is("seek") /\ s' = [s EXCEPT !.smp = E.n]
TEnv == /\ Is("env") /\ s' = [s EXCEPT !.us = Append(@, E.e)]
        /\ s.idx > 0 => CurOk(Played(s'.us, s.sv), s.idx)
TStart == /\ Is("start") /\ Kind = "chain" /\ LET i == IF s.idx = 0 THEN 1 ELSE s.idx
                                                  IN s' = [s EXCEPT !.idx = i] /\ CurOk(Pl, i)
\* a chain of envelopes that was stopped, or is started again, goes on where it was
TStop == /\ Is("stop") /\ s' = [s EXCEPT !.st = 4] /\ (Kind = "chain" /\ s.idx > 0 => CurOk(Pl, s.idx)) = TRUE
TNext == /\ Is("next")
         /\ LET i == IF s.idx < Len(Pl) THEN s.idx + 1 ELSE s.idx
            IN s' = [s EXCEPT !.idx = i] /\ CurOk(Pl, i)
\* attack, decay, sustain, from the moment of the start on; every start begins them again
Adsr(t, a, d, v) ==
    <<[k |-> "lin", t0 |-> t, t1 |-> t + a, v0 |-> 0, v1 |-> Cfg.one, lg |-> 0, lk |-> 0, u |-> 0],
      [k |-> "lin", t0 |-> t + a, t1 |-> t + a + d, v0 |-> Cfg.one, v1 |-> v, lg |-> 0, lk |-> 0, u |-> 0],
      [k |-> "const", t0 |-> t + a + d, t1 |-> -1, v0 |-> v, v1 |-> v, lg |-> 0, lk |-> 0, u |-> 0]>>
Now == TimeAt(s.smp, s.c)
TAdsr == /\ Is("start") /\ Kind = "adsr" /\ s' = [s EXCEPT !.idx = 1, !.us = Adsr(Now, E.a, E.d, E.s), !.rel = -1, !.st = 1]
         /\ E.st = 1
\* a finish request: from the value reached down to zero, wherever that is; done when zero is reached
Height == IF s.idx = 0 THEN 0 ELSE LET i == InForce(Pl, s.idx, s.smp, s.c) IN ValueAt(Pl[i], s.smp, s.c)
TRelease == /\ Is("finish") /\ Kind = "adsr" /\ E.st = 2
            /\ s' = [s EXCEPT !.us = <<[k |-> "rel", t0 |-> Now, t1 |-> Now + E.r, v0 |-> Height, v1 |-> 0, lg |-> 0, lk |-> 0, u |-> 0]>>,
                              !.idx = 1, !.rel = Now + E.r, !.st = 2]
\* whether the release is over at sample n: done is reported once
Ends(n) == s.rel >= 0 /\ TimeAt(n, s.c) >= s.rel
AfterRel(n) == IF Ends(n) THEN [s EXCEPT !.rel = -1, !.st = 3, !.fin = @ + 1] ELSE s
\* a buffer of a chain
Shape(k) == E.ch = s.ch /\ E.rate = s.rate /\ Len(E.out) = k /\ Len(E.lg) = k
RECURSIVE Walk(_, _, _)
Walk(pl, i, j) ==       \* position of the last sample's envelope, 0 when a sample is wrong
    IF j > Len(E.out) THEN i
    ELSE LET q == InForce(pl, i, s.smp + j - 1, s.c)
         IN IF ValueOk(pl[q], s.smp + j - 1, s.c, E.out[j], E.lg[j]) THEN Walk(pl, q, j + 1) ELSE 0
TProc == /\ Is("process") /\ Kind \in {"chain", "adsr"} /\ Shape(s.n * s.ch)
         /\ LET q == Walk(Pl, s.idx, 1)
                y == AfterRel(s.smp + Len(E.out))
                k == Len(E.out)
            IN /\ q > 0
               /\ E.smp = s.smp + k
               /\ \E i \in Positions(Pl, q, s.smp + k, s.c) : /\ Kind = "chain" => CurOk(Pl, i)
                                                              /\ s' = [y EXCEPT !.idx = i, !.smp = @ + k]
            /\ (Kind = "adsr" => E.st = y.st /\ E.fin = y.fin) = TRUE
\* a single envelope on its own timer
TSingle == /\ Is("process") /\ Kind \in {"single", "dur"} /\ Shape(s.n * s.ch)
           /\ LET e == s.us[1] IN
              (\A j \in 1..Len(E.out) : ValueOk(e, s.smp + j - 1, s.c, E.out[j], E.lg[j])) = TRUE
           /\ E.smp = s.smp + Len(E.out) /\ s' = [s EXCEPT !.smp = @ + Len(E.out)]
TRem == Is("rem") /\ E.rem = Remaining(s.us[1], s.smp, s.c) /\ UNCHANGED s
\* a duration envelope: the start fixes its envelope's times and starts it
TDur == Is("dur") /\ s' = [s EXCEPT !.dur = E.d]
TDSeek == Is("dseek") /\ s' = [s EXCEPT !.dt = E.t]
TDStart == /\ Is("start") /\ Kind = "dur" /\ E.t0 = s.dt /\ E.t1 = s.dt + s.dur /\ E.starts = s.begun + 1
           /\ s' = [s EXCEPT !.begun = @ + 1, !.us[1].t0 = s.dt, !.us[1].t1 = s.dt + s.dur]
Next == TTimer \/ TInfo \/ TStartV \/ TSeek \/ TEnv \/ TStart \/ TStop \/ TNext \/ TAdsr \/ TRelease \/ TProc \/ TSingle \/ TRem
        \/ TDur \/ TDSeek \/ TDStart
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
