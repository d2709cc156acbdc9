------------------------------- MODULE MCEnv -------------------------------
(* A chain of envelopes processed in buffers of any size, by the chunk       *)
(* algorithm (ask the current envelope for as many samples as it has left,   *)
(* move on when it is over), against the sample-wise specification in Env.   *)
EXTENDS Env, Json
CONSTANTS MaxT, MaxSteps, MaxEnvs, Gen
VARIABLES us, on, cur, smp, plan, steps, hist
vars == <<us, on, cur, smp, plan, steps, hist>>
C == [npf |-> 2, ch |-> 1, sc |-> 1]
StartV == 9

E0(k, t0, t1, u) == [k |-> k, t0 |-> t0, t1 |-> t1, v0 |-> 10 * u, v1 |-> 10 * u + 5, lg |-> 0, lk |-> 0, u |-> u]
\* the algorithm's own list: a tail filler is removed when an envelope is added, gaps are filled then
AddTo(pl, e) ==
    LET b == IF pl = <<>> THEN <<>> ELSE SubSeq(pl, 1, Len(pl) - 1)
        last == IF b = <<>> THEN [v1 |-> StartV, t1 |-> 0] ELSE b[Len(b)]
    IN b \o (IF last.t1 < e.t0 THEN <<Filler(last.v1, last.t1, e.t0)>> ELSE <<>>) \o <<e, Filler(e.v1, 0, -1)>>

\* one buffer of n samples: <<position, list of positions that gave the samples>>
RECURSIVE Chunks(_, _, _, _)
Chunks(pl, i, n, at) ==
    IF n = 0 THEN <<i, <<>>>>
    ELSE LET e == pl[i]
             left == IF e.t1 < 0 THEN n
                     ELSE LET r == Remaining(e, at, C) IN IF r = 0 /\ ~Over(e, at, C) THEN C.ch ELSE r
             k == IF left < n THEN left ELSE n
             j == IF Over(e, at + k, C) /\ i < Len(pl) THEN i + 1 ELSE i
             r == Chunks(pl, j, n - k, at + k)
         IN <<r[1], [m \in 1..k |-> i] \o r[2]>>

H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Init == us = <<>> /\ on = FALSE /\ cur = 1 /\ smp = 0 /\ plan = <<>> /\ steps = 0 /\ hist = <<>>
Add == /\ Tick /\ Len(us) < MaxEnvs
       /\ \E k \in {"const", "set", "lin"}, t0 \in 0..MaxT, t1 \in -1..MaxT :
            /\ (k = "lin" => t1 > t0) /\ (k = "set" => t1 >= 0)
            /\ us' = Append(us, E0(k, t0, t1, Len(us) + 1))
            /\ plan' = AddTo(IF plan = <<>> /\ on THEN <<Filler(StartV, 0, -1)>> ELSE plan, us'[Len(us')])
            /\ H(<<"env", k, t0, t1>>)
       /\ UNCHANGED <<on, cur, smp>>
\* started again, it stays where it is
Start == /\ Tick /\ on' = TRUE /\ cur' = (IF on THEN cur ELSE 1) /\ H(<<"start">>)
         /\ plan' = IF plan = <<>> THEN <<Filler(StartV, 0, -1)>> ELSE plan
         /\ UNCHANGED <<us, smp>>
Go == /\ Tick /\ on
      /\ \E n \in 1..3 :
           LET r == Chunks(plan, cur, n, smp)
           IN /\ cur' = r[1] /\ smp' = smp + n /\ H(<<"process", n>>)
      /\ UNCHANGED <<us, on, plan>>
Force == /\ Tick /\ on /\ cur' = (IF cur < Len(plan) THEN cur + 1 ELSE cur) /\ H(<<"next">>)
         /\ UNCHANGED <<us, on, smp, plan>>
Next == Add \/ Start \/ Go \/ Force
Spec == Init /\ [][Next]_vars

\* the incremental list is the specified one
ListOk == (plan # <<>>) => /\ Len(plan) = Len(Played(us, StartV))
                           /\ \A i \in 1..Len(plan) : [plan[i] EXCEPT !.t0 = 0] = [Played(us, StartV)[i] EXCEPT !.t0 = 0]
\* every sample comes from the envelope in force, however the stream is cut into buffers
RECURSIVE Wise(_, _, _, _)
Wise(pl, i, n, at) == IF n = 0 THEN <<>>
                      ELSE LET j == InForce(pl, i, at, C) IN <<j>> \o Wise(pl, j, n - 1, at + 1)
ChunkOk == on => \A n \in 1..4 :
             LET r == Chunks(plan, cur, n, smp) w == Wise(plan, cur, n, smp)
             IN r[2] = w /\ r[1] \in Positions(plan, w[n], smp + n, C)
Cur == cur <= Len(plan) \/ ~on
View == <<us, on, cur, smp, steps>>
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
=============================================================================
