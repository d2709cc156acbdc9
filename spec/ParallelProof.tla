---------------------------- MODULE ParallelProof ----------------------------
(***************************************************************************)
(* What ParallelAbs promises, proved (TLAPS) for any number of buffers,    *)
(* callers, calls and sessions, and for any limits: every session delivers *)
(* what upstream made in it exactly once and in order (C01, C04), and no   *)
(* more is waiting than the largest limit there was (C02).                 *)
(* The history: made / took, what was made and taken in this session;      *)
(* high, the largest limit so far.                                         *)
(***************************************************************************)
EXTENDS ParallelAbs, TLAPS

CONSTANT Max0
ASSUME NoBufA == NoBuf = 0
ASSUME MaxA == Max0 \in Nat

VARIABLES made, took, high
ghosts == <<made, took, high>>
pvars == <<avars, ghosts>>

Init == AInit(Max0) /\ made = 0 /\ took = 0 /\ high = Max0

Keep == UNCHANGED ghosts
Next == \/ \E t \in Threads : \/ \E f \in {"start", "stop", "proc", "size", "max", "getmax"}, a \in Nat : Call(t, f, a) /\ Keep
                              \/ Halt(t) /\ Keep
                              \/ Ret(t) /\ Keep
                              \/ LinStart(t) /\ made' = 0 /\ took' = 0 /\ UNCHANGED high
                              \/ LinStop(t) /\ Keep
                              \/ LinPop(t) /\ took' = took + 1 /\ UNCHANGED <<made, high>>
                              \/ LinNone(t) /\ Keep
                              \/ LinSize(t) /\ Keep
                              \/ LinMax(t) /\ high' = (IF arg[t] > high THEN arg[t] ELSE high) /\ UNCHANGED <<made, took>>
                              \/ LinGetMax(t) /\ Keep
        \/ WCheck /\ Keep \/ WExit /\ Keep \/ PB /\ Keep
        \/ PE(made + 1) /\ made' = made + 1 /\ UNCHANGED <<took, high>>
        \/ WPush /\ Keep
Spec == Init /\ [][Next]_pvars

TypeOK == /\ q \in Seq(Nat) /\ done \in BOOLEAN /\ max \in Nat /\ wbuf \in Nat
          /\ wst \in {"off", "check", "go", "busy", "have"}
          /\ arg \in [Threads -> Nat] /\ made \in Nat /\ took \in Nat /\ high \in Nat
          /\ res = [t \in Threads |-> res[t]]
          /\ ph \in [Threads -> {"idle", "called", "lin"}]

Held == IF wst = "have" THEN 1 ELSE 0
\* what waits, and what is held, is what was made and not taken yet, in that order
Whole == /\ took + Len(q) + Held = made
         /\ \A i \in 1..Len(q) : q[i] = took + i
         /\ wst = "have" => wbuf = made
Ahead == /\ max <= high
         /\ Len(q) <= high
         /\ wst \in {"go", "busy", "have"} => Len(q) < high
Inv == TypeOK /\ Whole /\ Ahead

THEOREM Safe == Spec => []Inv
<1>1. Init => Inv
  BY NoBufA, MaxA DEF Init, AInit, Inv, TypeOK, Whole, Ahead, Held
<1>2. Inv /\ [Next]_pvars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_pvars PROVE Inv' OBVIOUS
  <2> USE NoBufA DEF Inv, TypeOK, Whole, Ahead, Held, Keep, ghosts, cvars, Eff
  <2>1. ASSUME NEW t \in Threads, NEW f, NEW a \in Nat, Call(t, f, a), Keep PROVE Inv'
    BY <2>1 DEF Call
  <2>2. ASSUME NEW t \in Threads, Halt(t), Keep PROVE Inv'
    BY <2>2 DEF Halt
  <2>3. ASSUME NEW t \in Threads, Ret(t), Keep PROVE Inv'
    BY <2>3 DEF Ret
  <2>4. ASSUME NEW t \in Threads, LinStart(t), made' = 0, took' = 0, UNCHANGED high PROVE Inv'
    BY <2>4 DEF LinStart
  <2>5. ASSUME NEW t \in Threads, LinStop(t), Keep PROVE Inv'
    BY <2>5 DEF LinStop
  <2>6. ASSUME NEW t \in Threads, LinPop(t), took' = took + 1, UNCHANGED <<made, high>> PROVE Inv'
    <3>1. Len(q) > 0 /\ q' = Tail(q) /\ Len(q') = Len(q) - 1 /\ q' \in Seq(Nat)
      BY <2>6 DEF LinPop
    <3>2. \A i \in 1..Len(q') : q'[i] = q[i + 1]
      BY <3>1
    <3> QED BY <2>6, <3>1, <3>2 DEF LinPop
  <2>7. ASSUME NEW t \in Threads, LinNone(t), Keep PROVE Inv'
    BY <2>7 DEF LinNone
  <2>8. ASSUME NEW t \in Threads, LinSize(t), Keep PROVE Inv'
    BY <2>8 DEF LinSize
  <2>9. ASSUME NEW t \in Threads, LinMax(t), high' = (IF arg[t] > high THEN arg[t] ELSE high), UNCHANGED <<made, took>> PROVE Inv'
    BY <2>9 DEF LinMax
  <2>10. ASSUME NEW t \in Threads, LinGetMax(t), Keep PROVE Inv'
    BY <2>10 DEF LinGetMax
  <2>11. ASSUME WCheck, Keep PROVE Inv'
    BY <2>11 DEF WCheck
  <2>12. ASSUME WExit, Keep PROVE Inv'
    BY <2>12 DEF WExit
  <2>13. ASSUME PB, Keep PROVE Inv'
    BY <2>13 DEF PB
  <2>14. ASSUME PE(made + 1), made' = made + 1, UNCHANGED <<took, high>> PROVE Inv'
    BY <2>14 DEF PE
  <2>15. ASSUME WPush, Keep PROVE Inv'
    <3>1. q' = Append(q, wbuf) /\ Len(q') = Len(q) + 1 /\ q' \in Seq(Nat)
      BY <2>15 DEF WPush
    <3>2. \A i \in 1..Len(q') : q'[i] = IF i = Len(q) + 1 THEN wbuf ELSE q[i]
      BY <3>1
    <3> QED BY <2>15, <3>1, <3>2 DEF WPush
  <2>16. ASSUME UNCHANGED pvars PROVE Inv'
    BY <2>16 DEF pvars, avars
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14, <2>15, <2>16 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* a call that takes a buffer gets the next one of the session
THEOREM NextInLine == Inv => \A t \in Threads : LinPop(t) => res'[t] = took + 1
  BY DEF Inv, TypeOK, Whole, LinPop, Eff

\* a session starts empty, and while nothing runs nothing is made
THEOREM Fresh == Inv => \A t \in Threads : LinStart(t) => q' = <<>> /\ wst = "off"
  BY DEF LinStart
THEOREM Quiet == Inv /\ wst = "off" /\ [Next]_pvars => made' = made \/ \E t \in Threads : LinStart(t)
  BY DEF Next, Keep, ghosts, PE, pvars, avars

\* nobody but the worker itself returns from a stop while the worker runs, unless a new session began since
THEOREM Stopped == Inv => \A t \in Threads : Ret(t) /\ fn[t] = "stop" /\ t # Worker => wst = "off" \/ arg[t] = 1
  BY DEF Ret
=============================================================================
