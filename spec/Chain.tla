-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Module chains: topology, lifecycle, finish accounting, info             *)
(* synchronisation, parameters and the flow of buffers.                    *)
(*                                                                         *)
(* A chain state s is a record of sequences indexed by module id:          *)
(*   kind   "sink" "psink" "psnk"  sinks (plain / periods / with params)   *)
(*          "src" "psrc" "const"   sources (plain / with params / ConstModule)*)
(*          "mod" "pmod"           one input, one output                   *)
(*          "mixd" "mixu" "multi"  mixers (n:1, 1:n, n:n)                   *)
(*          "param"                a parameter: the sink of its own chain  *)
(*   lazy   finish() does not report done by itself                        *)
(*   back   inputs in order       fwd   module in front (0: none)          *)
(*   outs   modules in front of a 1:n mixer                                *)
(*   pars   parameters of the module, in order                             *)
(*   st     state                 info  <<rate, in, out, channels>>        *)
(*   own    the sink whose chain record the module refers to (0: none)     *)
(*   ci     per sink: [sr, bs, ch, num, fin]                               *)
(*   per    periods               cnt   buffers made so far by a source    *)
(*   val    value of a const                                               *)
(* Every operator below is one public operation; a result is a record      *)
(*   [s |-> new state, hk |-> hooks run <<id, hook, state>>, buf |-> ...]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Created == 0  Started == 1  Finishing == 2  Finished == 3  Stopped == 4
HStart == 1   HStop == 2    HFinish == 3    HProc == 4     HSync == 5   HDone == 6

Sinks == {"sink", "psink", "psnk", "param"}
Sources == {"src", "psrc", "const"}
Mixers == {"mixd", "multi"}
Quiet(k) == k = "const"                  \* library module without probes: no hooks to observe

DefInfo == <<44100, 440, 440, 1>>
NoBuf == <<>>

Ids(s) == 1..Len(s.kind)
Hook(s, m, h) == IF Quiet(s.kind[m]) THEN <<>> ELSE <<<<m, h, s.st[m]>>>>
Set(s, m, x) == [s EXCEPT !.st[m] = x]

New(kind, lazy, val) ==
    [kind |-> kind, lazy |-> lazy, val |-> val,
     back |-> [i \in 1..Len(kind) |-> <<>>], pars |-> [i \in 1..Len(kind) |-> <<>>],
     outs |-> [i \in 1..Len(kind) |-> <<>>],
     fwd |-> [i \in 1..Len(kind) |-> 0], st |-> [i \in 1..Len(kind) |-> Created],
     info |-> [i \in 1..Len(kind) |-> DefInfo],
     own |-> [i \in 1..Len(kind) |-> IF kind[i] \in Sinks THEN i ELSE 0],
     ci |-> [i \in 1..Len(kind) |-> [sr |-> 44100, bs |-> 440, ch |-> 1, num |-> 1, fin |-> 0]],
     per |-> [i \in 1..Len(kind) |-> 1], cnt |-> [i \in 1..Len(kind) |-> 0]]

R(s, hk) == [s |-> s, hk |-> hk, buf |-> NoBuf]

-----------------------------------------------------------------------------
\* Topology

SetForward(s, m, f) == [s EXCEPT !.fwd[m] = f,
                                 !.outs[m] = IF s.kind[m] \in {"mixu", "multi"} THEN Append(@, f) ELSE @]
\* f.link(b): the chain end in front of b is f; a mixer gains an input, everything else replaces it
Link(s, f, b) ==
    LET s1 == [s EXCEPT !.back[f] = IF s.kind[f] \in Mixers THEN Append(@, b) ELSE <<b>>]
        s2 == SetForward(s1, b, f)
    IN IF s.kind[f] \in Mixers THEN [s2 EXCEPT !.own[b] = s.own[f]] ELSE s2
\* a copy of a static chain: modules fr become modules to, which are as they were, but a chain of their own.  A sink
\* in front is in charge of the copy; otherwise the copy is to be linked.  Both need an info sync
RECURSIVE CopyAll(_, _, _, _)
CopyAll(s, fr, to, i) ==
    IF i > Len(fr) THEN s
    ELSE LET f == fr[i] t == to[i]
             s1 == [s EXCEPT !.st[t] = s.st[f], !.info[t] = s.info[f], !.cnt[t] = s.cnt[f], !.per[t] = s.per[f], !.ci[t] = s.ci[f],
                             !.own[t] = IF s.kind[t] \in Sinks THEN t ELSE 0,
                             !.back[t] = IF i < Len(fr) THEN <<to[i + 1]>> ELSE <<>>,
                             !.fwd[t] = IF i > 1 THEN to[i - 1] ELSE 0]
         IN CopyAll(s1, fr, to, i + 1)
Copy(s, fr, to) == CopyAll(s, fr, to, 1)
AddParam(s, h, p) == [s EXCEPT !.pars[h] = Append(@, p)]

-----------------------------------------------------------------------------
\* Lifecycle: everything behind first, in order; then the module; then its parameters

RECURSIVE Start(_, _), StartAll(_, _), Stop(_, _), StopAll(_, _), Finish(_, _), FinishAll(_, _)
Start(s, m) ==
    LET a == StartAll(s, s.back[m])
        s1 == Set(a.s, m, Started)
        h == a.hk \o Hook(s1, m, HStart)
        p == StartAll(s1, s.pars[m])
    IN R(p.s, h \o p.hk)
StartAll(s, ms) ==
    IF ms = <<>> THEN R(s, <<>>)
    ELSE LET a == Start(s, Head(ms)) b == StartAll(a.s, Tail(ms)) IN R(b.s, a.hk \o b.hk)
Stop(s, m) ==
    LET a == StopAll(s, s.back[m])
        s1 == Set(a.s, m, Stopped)
        h == a.hk \o Hook(s1, m, HStop)
        p == StopAll(s1, s.pars[m])
    IN R(p.s, h \o p.hk)
StopAll(s, ms) ==
    IF ms = <<>> THEN R(s, <<>>)
    ELSE LET a == Stop(s, Head(ms)) b == StopAll(a.s, Tail(ms)) IN R(b.s, a.hk \o b.hk)

\* a module declares itself finished: counted once in the chain it belongs to, which it learns in an info sync
Done(s, m) == IF s.own[m] = 0 THEN Set(s, m, Finished) ELSE [s EXCEPT !.st[m] = Finished, !.ci[s.own[m]].fin = @ + 1]
\* finish requests do not reach parameters: they belong to chains of their own
Finish(s, m) ==
    LET a == FinishAll(s, s.back[m])
        s1 == Set(a.s, m, Finishing)
        h == a.hk \o Hook(s1, m, HFinish)
    IN IF s.lazy[m] THEN R(s1, h) ELSE R(Done(s1, m), h \o Hook(s1, m, HDone))
FinishAll(s, ms) ==
    IF ms = <<>> THEN R(s, <<>>)
    ELSE LET a == Finish(s, Head(ms)) b == FinishAll(a.s, Tail(ms)) IN R(b.s, a.hk \o b.hk)

-----------------------------------------------------------------------------
\* Information: from the sink's chain record backwards; then parameters, each a chain
\* configured from its host

InfoSync(s, m) ==
    IF s.kind[m] \in Sinks
    THEN [s EXCEPT !.info[m] = <<s.ci[m].sr, s.ci[m].bs, s.ci[m].bs, s.ci[m].ch>>, !.ci[m].num = 1]
    ELSE LET f == s.fwd[m] o == s.own[f]
         s1 == [s EXCEPT !.info[m] = s.info[f], !.own[m] = o]
         IN IF o = 0 THEN s1 ELSE [s1 EXCEPT !.ci[o].num = @ + 1]
RECURSIVE Sync(_, _), SyncAll(_, _), Conf(_, _, _), ConfAll(_, _, _)
Sync(s, m) ==
    LET h == Hook(s, m, HSync)
        a == SyncAll(InfoSync(s, m), s.back[m])
        p == ConfAll(a.s, s.pars[m], m)
    IN R(p.s, h \o a.hk \o p.hk)
SyncAll(s, ms) ==
    IF ms = <<>> THEN R(s, <<>>)
    ELSE LET a == Sync(s, Head(ms)) b == SyncAll(a.s, Tail(ms)) IN R(b.s, a.hk \o b.hk)
Conf(s, p, host) ==
    LET s1 == [s EXCEPT !.fwd[p] = host,
                        !.ci[p].bs = s.info[host][2], !.ci[p].ch = s.info[host][4], !.ci[p].sr = s.info[host][1]]
    IN Sync(s1, p)
ConfAll(s, ps, host) ==
    IF ps = <<>> THEN R(s, <<>>)
    ELSE LET a == Conf(s, Head(ps), host) b == ConfAll(a.s, Tail(ps), host) IN R(b.s, a.hk \o b.hk)

-----------------------------------------------------------------------------
\* Flow: a buffer is <<channels, rate, sample, sample, ...>>

Mk(ch, sr, v) == <<ch, sr>> \o v
Vals(b) == SubSeq(b, 3, Len(b))
Out(i) == i[3] * i[4]
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Proc(_, _), ProcAll(_, _), Times(_, _, _), ParVals(_, _, _)
B(s, hk, buf) == [s |-> s, hk |-> hk, buf |-> buf]

\* what the probes do with the data: sources make fresh numbers, the others apply 2x + id, and
\* modules with parameters then add the parameter buffers sample by sample
\* some sources deliver buffers of a shape and rate of their own, another one every time
Odd(s, m) == s.kind[m] = "src" /\ s.val[m] > 40
OddChan(s, m) == 1 + ((m + s.cnt[m]) % 3)
OddRate(s, m) == 9000 + 500 * ((m + s.cnt[m]) % 3)
OddLen(s, m) == (1 + ((m + 2 * s.cnt[m]) % 6)) * OddChan(s, m)
SrcVals(s, m) == [j \in 1..(IF Odd(s, m) THEN OddLen(s, m) ELSE Out(s.info[m])) |-> m * 1000 + s.cnt[m] * 100 + j]
ModVals(m, v) == [j \in 1..Len(v) |-> 2 * v[j] + m]
RECURSIVE Seen(_, _)
Seen(c, v) == IF v = <<>> THEN c ELSE Seen((c + (Head(v) % 997)) % 997, Tail(v))
SumBufs(n, bs) == [j \in 1..n |->
    LET RECURSIVE S(_)
        S(k) == IF k > Len(bs) THEN 0
                ELSE (IF j <= Len(bs[k]) - 2 THEN bs[k][j + 2] ELSE 0) + S(k + 1)
    IN S(1)]

ParVals(s, ps, v) ==      \* evaluate parameters in order, adding each to v
    IF ps = <<>> THEN B(s, <<>>, v)
    ELSE LET a == Proc(s, Head(ps))
             w == Vals(a.buf)
             v2 == [j \in 1..Len(v) |-> IF j <= Len(w) THEN v[j] + w[j] ELSE v[j]]
             r == ParVals(a.s, Tail(ps), v2)
         IN B(r.s, a.hk \o r.hk, r.buf)

Proc1(s, m) ==
    LET k == s.kind[m] IN
    CASE k = "const" ->
           B(s, <<>>, Mk(s.info[m][4], s.info[m][1], [j \in 1..Out(s.info[m]) |-> s.val[m]]))
      [] k = "src" ->
           B([s EXCEPT !.cnt[m] = @ + 1], Hook(s, m, HProc),
             IF Odd(s, m) THEN Mk(OddChan(s, m), OddRate(s, m), SrcVals(s, m)) ELSE Mk(s.info[m][4], s.info[m][1], SrcVals(s, m)))
      [] k = "psrc" ->
           LET r == ParVals([s EXCEPT !.cnt[m] = @ + 1], s.pars[m], SrcVals(s, m))
           IN B(r.s, Hook(s, m, HProc) \o r.hk, Mk(s.info[m][4], s.info[m][1], r.buf))
      [] k \in Mixers ->
           LET a == ProcAll(s, s.back[m])
           IN B(a.s, a.hk \o Hook(a.s, m, HProc),
                Mk(s.info[m][4], s.info[m][1], SumBufs(Out(s.info[m]), a.buf)))
      [] k = "psink" ->       \* shows everything it has seen so far in the first sample
           LET a == Proc(s, s.back[m][1])
               v == Vals(a.buf)
               c == Seen(a.s.cnt[m], v)
           IN B([a.s EXCEPT !.cnt[m] = c], a.hk \o Hook(a.s, m, HProc),
                IF v = <<>> THEN a.buf ELSE [a.buf EXCEPT ![3] = @ + c])
      [] k \in {"mixu", "sink", "param"} ->
           LET a == Proc(s, s.back[m][1]) IN B(a.s, a.hk \o Hook(a.s, m, HProc), a.buf)
      [] k = "mod" ->
           LET a == Proc(s, s.back[m][1])
           IN B(a.s, a.hk \o Hook(a.s, m, HProc), Mk(a.buf[1], a.buf[2], ModVals(m, Vals(a.buf))))
      [] k \in {"pmod", "psnk"} ->
           LET a == Proc(s, s.back[m][1])
               r == ParVals(a.s, s.pars[m], ModVals(m, Vals(a.buf)))
           IN B(r.s, a.hk \o Hook(a.s, m, HProc) \o r.hk, Mk(a.buf[1], a.buf[2], r.buf))
ProcAll(s, ms) ==       \* buf: the sequence of the buffers
    IF ms = <<>> THEN B(s, <<>>, <<>>)
    ELSE LET a == Proc(s, Head(ms)) r == ProcAll(a.s, Tail(ms)) IN B(r.s, a.hk \o r.hk, <<a.buf>> \o r.buf)
Times(s, m, n) ==
    LET a == Proc1(s, m)
    IN IF n = 1 THEN a ELSE LET r == Times(a.s, m, n - 1) IN B(r.s, a.hk \o r.hk, r.buf)
Proc(s, m) == IF s.kind[m] = "psink"
              THEN (IF s.per[m] < 1 THEN B(s, <<>>, NoBuf) ELSE Times(s, m, s.per[m]))
              ELSE Proc1(s, m)

-----------------------------------------------------------------------------
\* Reachability
RECURSIVE Behind(_, _), BehindAll(_, _)
Behind(s, m) == {m} \cup BehindAll(s, s.back[m])
BehindAll(s, ms) == IF ms = <<>> THEN {} ELSE Behind(s, Head(ms)) \cup BehindAll(s, Tail(ms))
RECURSIVE All(_, _), AllOf(_, _)
All(s, m) == {m} \cup AllOf(s, s.back[m] \o s.pars[m])
AllOf(s, ms) == IF ms = <<>> THEN {} ELSE All(s, Head(ms)) \cup AllOf(s, Tail(ms))
=============================================================================
