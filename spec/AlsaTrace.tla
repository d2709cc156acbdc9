----------------------------- MODULE AlsaTrace -----------------------------
EXTENDS TraceKit, Alsa
VARIABLE s
Cards == Cfg.cards
\* card and settings chosen (0: none yet), the stream, the channels of the chain, the number of periods per request
Init == KitInit /\ s = [card |-> 0, v |-> Fresh, st |-> "none", ch |-> 1, per |-> 1]
Clean == E.misused = 0 /\ E.kept = 0 /\ E.open = (IF s'.st = "none" THEN 0 ELSE 1)
\* a description of card i, with settings v
Described(d, i, v) ==
    LET c == Cards[i] IN
    /\ d.card = i /\ d.text = 1 /\ d.in = (IF c.dir \in {0, 1} THEN 1 ELSE 0) /\ d.out = (IF c.dir \in {0, 2} THEN 1 ELSE 0)
    /\ d.fail = c.busy
    /\ c.busy = 0 => /\ d.v = v /\ d.lo = c.lo /\ d.hi = c.hi
                     /\ d.time = <<Time(c.lo[3], c.hi[2]), Time(v[3], v[2]), Time(c.hi[3], c.lo[2])>>
                     /\ d.size = <<c.lo[3] * c.lo[4], v[3] * v[4], c.hi[3] * c.hi[4]>>
TMade == Is("made") /\ UNCHANGED s /\ Clean
TCount == Is("count") /\ E.n = Len(Cards) /\ UNCHANGED s /\ Clean
TAsk == /\ Is("ask") /\ Described(E.d, E.i, Settle(Cards[E.i], Fresh)) /\ E.d.id = E.i - 1 /\ UNCHANGED s /\ Clean
TChoose == /\ Is("choose") /\ s' = [s EXCEPT !.card = E.i, !.v = Settle(Cards[E.i], Fresh)]
           /\ Described(E.d, E.i, s'.v) /\ E.d.id = E.i - 1 /\ Clean
TTune == /\ Is("tune") /\ s' = [s EXCEPT !.v = Settle(Cards[s.card], E.want)]
         /\ Described(E.d, s.card, s'.v) /\ Clean
TSync == /\ Is("sync") /\ E.sink = ChainOf(s.v) /\ E.feed = ChainOf(s.v) /\ E.period = s.v[4] /\ E.num = 2
         /\ s' = [s EXCEPT !.ch = s.v[1], !.per = s.v[4]] /\ Clean
TStart == /\ Is("start") /\ s' = [s EXCEPT !.st = "prepared"] /\ SelectSeq(E.calls, LAMBDA c : c # <<3, 0>>) = Session(s.card, s.v)
          /\ Described(E.d, s.card, s.v) /\ Clean
TStop == /\ Is("stop") /\ E.calls = Closing /\ s' = [s EXCEPT !.st = "none"] /\ Clean
TProc == /\ Is("process") /\ Len(E.ins) = s.per /\ Plays(E.calls, E.ins, s.ch)
         /\ LET st == AfterAll(s.st, E.calls) IN st # "wrong" /\ s' = [s EXCEPT !.st = st]
         /\ Clean
Next == TMade \/ TCount \/ TAsk \/ TChoose \/ TTune \/ TSync \/ TStart \/ TStop \/ TProc
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
