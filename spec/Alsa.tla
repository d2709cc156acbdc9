-------------------------------- MODULE Alsa --------------------------------
(***************************************************************************)
(* Playback on a sound card, and the description of cards.                 *)
(* A card offers a range for each of four settings <<channels, rate,       *)
(* period size, number of periods>> and prefers one value of each.         *)
(*   card  [dir (0 both, 1 in, 2 out), busy, lo, hi, pref]                 *)
(* A stream is "none", "prepared", "running" (it took frames), or "broken" *)
(* (it ran out of frames and has to be prepared again).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Settings == 1..4
\* what comes of the settings asked for: 0 leaves it to the card, as does what it cannot do
Settle(card, want) == [f \in Settings |-> IF want[f] # 0 /\ card.lo[f] <= want[f] /\ want[f] <= card.hi[f] THEN want[f] ELSE card.pref[f]]
\* a new description asks for one channel at 44100
Fresh == <<1, 44100, 0, 0>>
Time(ps, rate) == (ps * 1000000) \div rate
Half(v) == v[3] \div 2
\* what a chain in front of which the sink stands is told: channels, rate, frames in and out of every module
ChainOf(v) == <<v[1], v[2], Half(v), Half(v)>>

-----------------------------------------------------------------------------
(* The calls a stream sees: <<1, card>> opened, <<2, settings.., form>>     *)
(* configured, <<3, r>> prepared (r: while running), <<4, frames, taken,    *)
(* code, ..>> written, <<5>> drained, <<6>> closed.                         *)
Opens(c) == c[1] = 1
Writes(calls) == SelectSeq(calls, LAMBDA c : c[1] = 4)
Session(card, v) == <<<<1, card>>, <<2>> \o v \o <<1>>>>
Closing == <<<<5>>, <<6>>>>

\* one call against the stream: what it becomes, or "wrong"
After(st, c) ==
    CASE c[1] = 3 -> IF st \in {"prepared", "broken"} /\ c[2] = 0 THEN "prepared" ELSE "wrong"
      [] c[1] = 4 -> IF c[3] = 1 THEN (IF st \in {"prepared", "running"} THEN "running" ELSE "wrong")
                     ELSE (IF st = "running" THEN "broken" ELSE "wrong")
      [] OTHER -> "wrong"
RECURSIVE AfterAll(_, _)
AfterAll(st, calls) == IF calls = <<>> \/ st = "wrong" THEN st ELSE AfterAll(After(st, Head(calls)), Tail(calls))

\* the calls that play blocks of codes: one write for each, whole, in order
Plays(calls, ins, ch) ==
    LET ws == Writes(calls)
    IN /\ Len(ws) = Len(ins)
       /\ \A i \in 1..Len(ins) : /\ ws[i][2] * ch = Len(ins[i])
                                 /\ SubSeq(ws[i], 4, Len(ws[i])) = ins[i]
\* what the card has played of them
RECURSIVE Taken(_)
Taken(ws) == IF ws = <<>> THEN <<>> ELSE (IF Head(ws)[3] = 1 THEN SubSeq(Head(ws), 4, Len(Head(ws))) ELSE <<>>) \o Taken(Tail(ws))
=============================================================================
