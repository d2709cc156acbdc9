----------------------------- MODULE OscTrace -----------------------------
EXTENDS TraceKit, Osc
VARIABLE s
Init == KitInit /\ s = [o |-> Fresh("sine", FALSE, 1, 4, 0, 0), exact |-> TRUE, saved |-> 0]
Close(x, y) == x - y \in -3..3
TNew == /\ Is("new")
        /\ s' = [s EXCEPT !.o = Fresh(E.kind, E.mod = 1, E.ch, E.r, E.size, E.f), !.exact = E.exact = 1, !.saved = 0]
TFreq == Is("freq") /\ s' = [s EXCEPT !.o.f = E.f]
TSize == Is("size") /\ s' = [s EXCEPT !.o.size = E.n]
TChan == Is("chan") /\ s' = [s EXCEPT !.o.ch = E.n]
TSave == Is("save") /\ s' = [s EXCEPT !.saved = Phase(s.o)]
TRestore == Is("restore") /\ s' = [s EXCEPT !.o = Resume(@, s.saved)]
\* a phase that is set: in frames, or in units of the period when modulated
TPhase == Is("phase") /\ s' = [s EXCEPT !.o = Resume(@, IF @.mod THEN E.n % @.r ELSE E.n)]
TAgain == Is("again") /\ UNCHANGED s
\* the two sides of a jump are told apart only where the computation is exact
Other(k, a, r) == IF k = "square" THEN -Square(a, r) ELSE SC
TBlock == /\ Is("block") /\ E.ch = s.o.ch /\ E.r = s.o.r /\ E.n = s.o.size * s.o.ch /\ Len(E.out) = E.n
          /\ s.o.mod => Len(E.f) = s.o.size
          /\ LET o == s.o p == TLCEval(Positions(o, E.f))
             IN (\A i \in 1..o.size : LET a == p[i] w == Wave(o.kind, a, o.r) j == Jumps(o.kind, a, o.r) IN
                  \A c \in 1..o.ch : LET v == E.out[(i - 1) * o.ch + c] IN
                     Close(v, w) \/ (~s.exact /\ j /\ Close(v, Other(o.kind, a, o.r)))) = TRUE
          /\ s' = [s EXCEPT !.o = Advance(@, E.f)]
Next == TNew \/ TFreq \/ TSize \/ TChan \/ TSave \/ TRestore \/ TAgain \/ TPhase \/ TBlock
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
