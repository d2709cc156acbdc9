------------------------------- MODULE MCFlow -------------------------------
(* Re-blocking as a stream: upstream emits numbered samples in blocks of any size, the block size in force may *)
(* change between calls; whatever happens, the output is the numbered stream, uninterrupted, and upstream is   *)
(* never asked for more than needed.  The algebra of mixing and chain time is checked as assumptions.          *)
EXTENDS Flow, Json
CONSTANTS MaxIn, MaxSize, MaxCalls, Gen
VARIABLES inf, pend, tok, exp, calls, last, hist
vars == <<inf, pend, tok, exp, calls, last, hist>>

Block(from, k, inf0) == Mk(inf0[3], inf0[1], [j \in 1..k |-> from + j - 1])
RECURSIVE Blocks(_, _, _)
Blocks(from, ks, inf0) == IF ks = <<>> THEN <<>>
                          ELSE <<Block(from, Head(ks), inf0)>> \o Blocks(from + Head(ks), Tail(ks), inf0)
RECURSIVE Sum(_)
Sum(ks) == IF ks = <<>> THEN 0 ELSE Head(ks) + Sum(Tail(ks))
Sizes == UNION {[1..n -> 0..MaxIn] : n \in 0..4}

Init == inf = <<8000, 2, 1>> /\ pend = <<>> /\ tok = 1 /\ exp = 1 /\ calls = 0 /\ last = <<>> /\ hist = <<>>
Conf == \E n \in 1..MaxSize, c \in {1, 2} : inf' = <<8000, n, c>> /\ UNCHANGED <<pend, tok, exp, last>> /\ calls' = calls
        /\ calls < MaxCalls /\ inf # inf'
        /\ hist' = IF Gen THEN Append(hist, <<"chain", n, c>>) ELSE hist
Pull == /\ calls < MaxCalls
        /\ \E ks \in Sizes :
             LET bs == Blocks(tok, ks, inf) IN
             /\ UniPulls(inf, pend, bs)
             /\ last' = UniOut(inf, pend, bs) /\ pend' = UniRest(inf, pend, bs)
             /\ tok' = tok + Sum(ks) /\ exp' = exp + Need(inf)
             /\ hist' = IF Gen THEN Append(hist, <<"pull", ks>>) ELSE hist
        /\ calls' = calls + 1 /\ UNCHANGED inf
Next == Conf \/ Pull
Spec == Init /\ [][Next]_vars
View == <<inf, [j \in 1..Len(pend) |-> pend[j] - exp], calls>>

Lossless == /\ \A j \in 1..Len(pend) : pend[j] = exp + j - 1        \* what waits is exactly what comes next
            /\ exp + Len(pend) = tok
            /\ \A j \in 3..Len(last) : last[j] = last[3] + j - 3
PullOk == [][last' # last => /\ Len(last') = Need(inf) + 2 /\ (Len(last') > 2 => last'[3] = exp)]_vars
Frugal == Len(pend) <= MaxIn
Emit == (Gen /\ calls = MaxCalls) => PrintT(ToJson(hist))

\* algebra
Bs == {<<1, 8000>> \o v : v \in UNION {[1..n -> {1, 3}] : n \in 0..2}}
ASSUME \A a, b \in Bs : \A n \in 1..3 : Mixed(<<8000, n, 1>>, <<a, b>>) = Mixed(<<8000, n, 1>>, <<b, a>>)
ASSUME \A a \in Bs : Mixed(<<8000, Len(a) - 2, 1>>, <<a>>) = a
ASSUME \A n \in 1..3 : Mixed(<<8000, n, 2>>, <<>>) = Mk(2, 8000, [j \in 1..(2 * n) |-> 0])
ASSUME \A k \in 0..12, c \in 1..3 : /\ ChainTime(k + c, c, 7) = ChainTime(k, c, 7) + 7
                                    /\ ChainTime(k, c, 7) <= ChainTime(k + 1, c, 7)
=============================================================================
