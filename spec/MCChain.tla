------------------------------- MODULE MCChain -------------------------------
(* Every chain topology of at most MaxMods modules (trees, canonical order), then every sequence of at most *)
(* MaxOps operations on it.  Post: what each operation guarantees, stated independently of how Chain        *)
(* computes it.  Hist (printed when Gen) is replayed on the real code.                                       *)
EXTENDS Chain, Json
CONSTANTS MaxMods, MaxOps, Gen, WithParams, OpSet
VARIABLES nodes, s, phase, prev, op, res, n, hist
vars == <<nodes, s, phase, prev, op, res, n, hist>>

\* a node: [kind, nb, np (open slots: inputs / parameters), par, role]
RootKinds == {<<"sink", 1, 0>>, <<"psink", 1, 0>>} \cup IF WithParams THEN {<<"psnk", 1, 1>>} ELSE {}
InKinds == {<<"src", 0, 0>>, <<"mod", 1, 0>>, <<"mixd", 1, 0>>, <<"mixd", 2, 0>>, <<"mixu", 1, 0>>, <<"multi", 2, 0>>}
           \cup IF WithParams THEN {<<"psrc", 0, 1>>, <<"pmod", 1, 1>>, <<"psrc", 0, 2>>} ELSE {}
Node(k, p, r, lz) == [kind |-> k[1], nb |-> k[2], np |-> k[3], par |-> p, role |-> r, lazy |-> lz]

Kids(i, r) == SelectSeq([j \in 1..Len(nodes) |-> j], LAMBDA j : nodes[j].par = i /\ nodes[j].role = r)
OpenB(i) == Len(Kids(i, "b")) < nodes[i].nb
OpenP(i) == Len(Kids(i, "p")) < nodes[i].np
Open == {i \in 1..Len(nodes) : OpenB(i) \/ OpenP(i)}
MinOpen == CHOOSE i \in Open : \A j \in Open : i <= j
NOpen == LET RECURSIVE S(_)
             S(i) == IF i = 0 THEN 0 ELSE nodes[i].nb - Len(Kids(i, "b")) + nodes[i].np - Len(Kids(i, "p")) + S(i - 1)
         IN S(Len(nodes))
Kinds == [i \in 1..Len(nodes) |-> nodes[i].kind]

Grow == /\ phase = "grow" /\ Open # {} /\ Len(nodes) + NOpen <= MaxMods
        /\ LET i == MinOpen IN
           \/ /\ OpenB(i)
              /\ \E k \in InKinds \cup (IF nodes[i].kind = "param" THEN {<<"const", 0, 0>>} ELSE {}), lz \in BOOLEAN :
                    /\ lz => k[1] \in {"src", "mod"}
                    /\ nodes' = Append(nodes, Node(k, i, "b", lz))
           \/ /\ ~OpenB(i) /\ OpenP(i)
              /\ nodes' = Append(nodes, Node(<<"param", 1, 0>>, i, "p", FALSE))
        /\ UNCHANGED <<s, phase, prev, op, res, n, hist>>

RECURSIVE Build(_, _)
Build(x, i) == IF i > Len(nodes) THEN x
               ELSE Build(IF nodes[i].role = "b" THEN Link(x, nodes[i].par, i) ELSE AddParam(x, nodes[i].par, i), i + 1)
Ready == /\ phase = "grow" /\ Open = {} /\ Len(nodes) <= MaxMods
         /\ phase' = "run"
         /\ LET x == Build(New(Kinds, [i \in 1..Len(nodes) |-> nodes[i].lazy], [i \in 1..Len(nodes) |-> 7]), 2)
                y == [x EXCEPT !.ci[1] = [@ EXCEPT !.sr = 8000, !.bs = 2]]
            IN s' = Sync(y, 1).s
         /\ UNCHANGED <<nodes, prev, op, res, n, hist>>

Do(name, m, v, r) == /\ phase = "run" /\ n < MaxOps /\ name \in OpSet
                     /\ prev' = s /\ s' = r.s /\ op' = <<name, m>> \o v /\ res' = r /\ n' = n + 1
                     /\ hist' = IF Gen THEN Append(hist, <<name, m>> \o v) ELSE hist
                     /\ UNCHANGED <<nodes, phase>>
Ops ==  \/ Do("start", 1, <<>>, Start(s, 1)) \/ Do("stop", 1, <<>>, Stop(s, 1)) \/ Do("finish", 1, <<>>, Finish(s, 1))
        \/ \E m \in 2..Len(nodes) : s.kind[m] # "const" /\ s.own[m] # 0 /\ Do("done", m, <<>>, R(Done(s, m), Hook(s, m, HDone)))
        \/ \E m \in {1, Len(nodes)} : /\ m > 1 => s.kind[m] \in {"src", "mod"}
                                      /\ m > 1 /\ Do("start", m, <<>>, Start(s, m))
        \/ Do("sync", 1, <<>>, Sync(s, 1))
        \/ \E c \in {1, 2} : Do("chain", 1, <<8000 * c, 4 - c, c>>, R([s EXCEPT !.ci[1] = [@ EXCEPT !.sr = 8000 * c, !.bs = 4 - c, !.ch = c]], <<>>))
        \/ s.kind[1] = "psink" /\ \E p \in {0, 3} : Do("period", 1, <<p>>, R([s EXCEPT !.per[1] = p], <<>>))
        \/ Do("process", 1, <<>>, Proc(s, 1))
Next == Grow \/ Ready \/ (phase = "run" /\ n < MaxOps /\ Ops)
Init == /\ \E k \in RootKinds : nodes = <<Node(k, 0, "r", FALSE)>>
        /\ phase = "grow" /\ n = 0 /\ hist = <<>>
        /\ s = New(<<>>, <<>>, <<>>) /\ prev = s /\ op = <<"none">> /\ res = R(s, <<>>)
Spec == Init /\ [][Next]_vars
View == <<nodes, s, phase, prev, op, n>>

-----------------------------------------------------------------------------
Pos(hk, m, h) == {i \in 1..Len(hk) : hk[i][1] = m /\ hk[i][2] = h}
Loud(S) == {m \in S : ~Quiet(s.kind[m])}
Once(hk, h, S) == \A m \in Ids(s) : Cardinality(Pos(hk, m, h)) = IF m \in Loud(S) THEN 1 ELSE 0
BackFirst(hk, h, S) == \A m \in Loud(S) : \A b \in Loud({s.back[m][i] : i \in 1..Len(s.back[m])}) :
                          \A i \in Pos(hk, m, h), j \in Pos(hk, b, h) : j < i
InState(hk, h, x) == \A i \in 1..Len(hk) : hk[i][2] = h => hk[i][3] = x
SinkOf(m) == CHOOSE k \in Ids(s) : s.kind[k] \in Sinks /\ m \in Behind(s, k)

\* every operation of a whole chain
PostStart == op[1] = "start" => LET S == All(s, op[2]) IN
    /\ \A m \in S : s.st[m] = Started
    /\ \A m \in Ids(s) \ S : s.st[m] = prev.st[m]
    /\ Once(res.hk, HStart, S) /\ BackFirst(res.hk, HStart, S) /\ InState(res.hk, HStart, Started)
PostStop == op[1] = "stop" => LET S == All(s, op[2]) IN
    /\ \A m \in S : s.st[m] = Stopped
    /\ Once(res.hk, HStop, S) /\ BackFirst(res.hk, HStop, S) /\ InState(res.hk, HStop, Stopped)
PostFinish == op[1] = "finish" => LET S == Behind(s, op[2]) F == {m \in S : ~s.lazy[m]} IN
    /\ \A m \in S : s.st[m] = IF m \in F THEN Finished ELSE Finishing
    /\ \A m \in Ids(s) \ S : s.st[m] = prev.st[m]
    /\ s.ci[1].fin = prev.ci[1].fin + Cardinality(F)
    /\ \A m \in Ids(s) \ {1} : s.kind[m] \in Sinks => s.ci[m].fin = prev.ci[m].fin
    /\ Once(res.hk, HFinish, S) /\ BackFirst(res.hk, HFinish, S) /\ InState(res.hk, HFinish, Finishing)
    /\ Once(res.hk, HDone, F)
PostDone == op[1] = "done" => /\ s.st[op[2]] = Finished
                              /\ s.ci[SinkOf(op[2])].fin = prev.ci[SinkOf(op[2])].fin + 1
                              /\ \A k \in Ids(s) \ {SinkOf(op[2])} : s.ci[k].fin = prev.ci[k].fin
PostSync == op[1] = "sync" =>
    /\ \A m \in All(s, 1) : /\ s.info[m] = <<s.ci[1].sr, s.ci[1].bs, s.ci[1].bs, s.ci[1].ch>>
                            /\ s.own[m] = SinkOf(m)
    /\ \A k \in All(s, 1) : s.kind[k] \in Sinks => s.ci[k].num = Cardinality(Behind(s, k))
    /\ Once(res.hk, HSync, All(s, 1))
Len1(b) == Len(b) - 2
PostProc == op[1] = "process" =>
    LET p == IF s.kind[1] = "psink" THEN s.per[1] ELSE 1 IN
    /\ p > 0 => Len1(res.buf) = Out(s.info[1])
    /\ p = 0 => res.hk = <<>>
    /\ \A m \in Loud(All(s, 1)) : Cardinality(Pos(res.hk, m, HProc)) = p
    /\ \A m \in Loud(All(s, 1)) : s.kind[m] \in {"src", "psrc"} => s.cnt[m] = prev.cnt[m] + p
    /\ s.st = prev.st /\ s.info = prev.info /\ s.ci = prev.ci
Post == PostStart /\ PostStop /\ PostFinish /\ PostDone /\ PostSync /\ PostProc

Emit == (Gen /\ phase = "run" /\ n = MaxOps) =>
    PrintT(ToJson([nodes |-> nodes, ops |-> hist]))
=============================================================================
