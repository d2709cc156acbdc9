------------------------------ MODULE MCSeries ------------------------------
(* Two background modules one behind the other, each a ParallelAbs: the      *)
(* producer of the first (0) is a caller of the second (1).  The chain is    *)
(* started upstream first; it is stopped downstream first (as meta_stop      *)
(* does), or the other way round (UpFirst), which must fail.                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sessions, Procs, Max0, Max1, UpFirst
VARIABLES q0, done0, max0, wst0, wbuf0, ph0, fn0, arg0, res0,
          q1, done1, max1, wst1, wbuf1, ph1, fn1, arg1, res1,
          n,      \* buffers the source has made since it was started
          pc,     \* what M does next
          got     \* what M received in this session
T == {"M", "X"}
P0 == INSTANCE ParallelAbs WITH Threads <- {"M", "W"}, Worker <- "W", NoBuf <- <<>>, q <- q0, done <- done0, max <- max0, wst <- wst0, wbuf <- wbuf0, ph <- ph0, fn <- fn0, arg <- arg0, res <- res0
P1 == INSTANCE ParallelAbs WITH Threads <- {"M", "X", "W"}, Worker <- "W", NoBuf <- <<>>, q <- q1, done <- done1, max <- max1, wst <- wst1, wbuf <- wbuf1, ph <- ph1, fn <- fn1, arg <- arg1, res <- res1
v0 == <<q0, done0, max0, wst0, wbuf0, ph0, fn0, arg0, res0>>
v1 == <<q1, done1, max1, wst1, wbuf1, ph1, fn1, arg1, res1>>
vars == <<v0, v1, n, pc, got>>
One == <<<<1, "start">>, <<0, "start">>>> \o [i \in 1..Procs |-> <<0, "proc">>]
       \o (IF UpFirst THEN <<<<1, "stop">>, <<0, "stop">>>> ELSE <<<<0, "stop">>, <<1, "stop">>>>) \o [i \in 1..2 |-> <<0, "proc">>]
RECURSIVE Many(_)
Many(k) == IF k = 0 THEN <<>> ELSE One \o Many(k - 1)
Script == Many(Sessions)
Op == Script[pc]
Init == P0!AInit(Max0) /\ P1!AInit(Max1) /\ n = 0 /\ pc = 1 /\ got = <<>>
MCall == /\ pc <= Len(Script)
         /\ \/ Op[1] = 0 /\ P0!Call("M", Op[2], 0) /\ UNCHANGED <<v1, n, got>>
            \/ Op[1] = 1 /\ P1!Call("M", Op[2], 0) /\ UNCHANGED <<v0>>
               /\ (IF Op[2] = "start" THEN n' = 0 /\ got' = <<>> ELSE UNCHANGED <<n, got>>)
         /\ pc' = pc
MRet == /\ pc <= Len(Script)
        /\ \/ Op[1] = 0 /\ P0!Ret("M") /\ UNCHANGED <<v1, n>>
              /\ got' = (IF Op[2] = "proc" /\ res0["M"] # <<>> THEN Append(got, res0["M"]) ELSE got)
           \/ Op[1] = 1 /\ P1!Ret("M") /\ UNCHANGED <<v0, n, got>>
        /\ pc' = pc + 1
\* the first one's producer asks the second one
Ask == P0!PB /\ P1!Call("X", "proc", 0) /\ UNCHANGED <<n, pc, got>>
Had == P1!Ret("X") /\ P0!PE(res1["X"]) /\ UNCHANGED <<n, pc, got>>
\* the source
Begin == P1!PB /\ UNCHANGED <<v0, n, pc, got>>
Made == n < Procs + Max0 + Max1 + 4 /\ P1!PE(<<n + 1>>) /\ n' = n + 1 /\ UNCHANGED <<v0, pc, got>>
S0 == (P0!WCheck \/ P0!WExit \/ P0!WPush) /\ UNCHANGED <<v1, n, pc, got>>
S1 == (P1!WCheck \/ P1!WExit \/ P1!WPush) /\ UNCHANGED <<v0, n, pc, got>>
L0 == P0!Lin("M") /\ UNCHANGED <<v1, n, pc, got>>
L1 == P1!Lin("M") /\ UNCHANGED <<v0, n, pc, got>>
LX == P1!Lin("X") /\ UNCHANGED <<v0, n, pc, got>>
Next == MCall \/ MRet \/ Ask \/ Had \/ Begin \/ Made \/ S0 \/ S1 \/ L0 \/ L1 \/ LX
Spec == Init /\ [][Next]_vars /\ WF_vars(MCall) /\ WF_vars(MRet) /\ WF_vars(Ask) /\ WF_vars(Had) /\ WF_vars(Begin) /\ WF_vars(Made)
        /\ WF_vars(S0) /\ WF_vars(S1) /\ WF_vars(L0) /\ WF_vars(L1) /\ WF_vars(LX)
\* what the caller receives is what the source made, from the first one on, without a gap
Order == \A i \in 1..Len(got) : got[i] = <<i>>
\* while the chain runs the first module never hands on an empty buffer
NoEmpty == \A i \in 1..Len(q0) : q0[i] # <<>>
\* no more is made ahead than both limits and the two buffers under way
Ahead == n <= Len(got) + Max0 + Max1 + 3
\* once the chain has been stopped nothing moves upstream
Quiet == (pc > 1 /\ pc <= Len(Script) + 1 /\ Script[pc - 1] = <<1, "stop">> /\ ~UpFirst) => (wst0 = "off" /\ wst1 = "off" /\ ph1["X"] = "idle")
Ends == <>(pc = Len(Script) + 1)
=============================================================================
