------------------------------- MODULE MCAlsa -------------------------------
(* A player that follows the protocol (as the sink does), on a card whose   *)
(* stream may break at any write: what was played is what was produced,     *)
(* without the blocks the card refused.                                     *)
EXTENDS Alsa, Json
CONSTANTS MaxBlocks, MaxSteps, Gen
VARIABLES st, code, last, made, played, lost, steps, hist, opened, closed
vars == <<st, code, last, made, played, lost, steps, hist, opened, closed>>
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Init == st = "none" /\ code = 0 /\ last = <<>> /\ made = <<>> /\ played = <<>> /\ lost = {} /\ steps = 0 /\ hist = <<>> /\ opened = 0 /\ closed = 0
Start == /\ Tick /\ st = "none" /\ st' = "prepared" /\ last' = Session(1, <<1, 44100, 4, 2>>) /\ opened' = opened + 1 /\ H(<<"start">>)
         /\ UNCHANGED <<code, made, played, lost, closed>>
Stop == /\ Tick /\ st # "none" /\ st' = "none" /\ last' = Closing /\ closed' = closed + 1 /\ H(<<"stop">>)
        /\ UNCHANGED <<code, made, played, lost, opened>>
\* one block: prepared again if the last write was refused, written, prepared if it is refused now
Block(b, fault) ==
    LET pre == IF code = 1 THEN <<<<3, 0>>>> ELSE <<>>
        s1 == AfterAll(st, pre)
        broke == fault /\ s1 = "running"
        wr == <<<<4, 1, IF broke THEN 0 ELSE 1, b>>>>
        post == IF broke THEN <<<<3, 0>>>> ELSE <<>>
    IN [calls |-> pre \o wr \o post, broke |-> broke]
Process == /\ Tick /\ st # "none" /\ Len(made) < MaxBlocks
           /\ \E fault \in BOOLEAN :
                LET b == Len(made) + 1 r == Block(b, fault)
                IN /\ made' = Append(made, b) /\ last' = r.calls /\ st' = AfterAll(st, r.calls)
                   /\ Plays(r.calls, <<<<b>>>>, 1)
                   /\ played' = played \o Taken(Writes(r.calls)) /\ lost' = (IF r.broke THEN lost \cup {b} ELSE lost)
                   /\ code' = (IF r.broke THEN 1 ELSE 0) /\ H(<<"process", IF fault THEN 1 ELSE 0>>)
           /\ UNCHANGED <<opened, closed>>
Next == Start \/ Stop \/ Process
Spec == Init /\ [][Next]_vars
View == <<st, code, made, played, lost, steps, opened, closed>>
Fine == st # "wrong"
Order == played = SelectSeq(made, LAMBDA b : b \notin lost)
OneStream == opened - closed = (IF st = "none" THEN 0 ELSE 1)
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
\* settings: what is asked for and offered is what is got; everything settled is offered
Wants == {0, 1, 2, 3}
Cards0 == {[dir |-> 0, busy |-> 0, lo |-> [f \in Settings |-> a], hi |-> [f \in Settings |-> b], pref |-> [f \in Settings |-> p]] : a \in 1..2, b \in 2..3, p \in {2}}
ASSUME \A c \in Cards0, w1 \in Wants, w2 \in Wants : LET v == Settle(c, <<w1, w2, w1, w2>>) IN
          /\ \A f \in Settings : c.lo[f] <= v[f] /\ v[f] <= c.hi[f]
          /\ Settle(c, v) = v
=============================================================================
