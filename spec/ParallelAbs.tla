----------------------------- MODULE ParallelAbs -----------------------------
(***************************************************************************)
(* What a user of the background-thread module may observe, whatever the   *)
(* implementation: a bounded FIFO between one producer (the upstream chain *)
(* run on a background thread) and the caller of "proc".                   *)
(*                                                                         *)
(* Every public call is split in Call / Lin (the instant it takes effect)  *)
(* / Ret.  The producer goes check -> go -> busy -> have -> check; "pb"    *)
(* and "pe" (upstream begins / finishes one buffer) are observable, the    *)
(* rest is silent.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Threads,   \* callers
          Worker,    \* the member of Threads that is the background thread
          NoBuf      \* result of a "proc" that delivered nothing

VARIABLES q,      \* buffers waiting, oldest first
          done,   \* the module has been told to stop
          max,    \* the look-ahead limit
          wst,    \* producer: off | check | go | busy | have
          wbuf,   \* the buffer the producer is holding
          ph,     \* per caller: idle | called | lin
          fn,     \* per caller: the pending call
          arg,    \* per caller: its argument
          res     \* per caller: its result

avars == <<q, done, max, wst, wbuf, ph, fn, arg, res>>

AInit(m) == /\ q = <<>> /\ done = FALSE /\ max = m
            /\ wst = "off" /\ wbuf = NoBuf
            /\ ph = [t \in Threads |-> "idle"]
            /\ fn = [t \in Threads |-> "none"]
            /\ arg = [t \in Threads |-> 0]
            /\ res = [t \in Threads |-> NoBuf]

Call(t, f, a) == /\ ph[t] = "idle"
                 /\ ph' = [ph EXCEPT ![t] = "called"]
                 /\ fn' = [fn EXCEPT ![t] = f]
                 /\ arg' = [arg EXCEPT ![t] = a]
                 /\ UNCHANGED <<q, done, max, wst, wbuf, res>>

Eff(t, f, r) == /\ ph[t] = "called" /\ fn[t] = f
                /\ ph' = [ph EXCEPT ![t] = "lin"]
                /\ res' = [res EXCEPT ![t] = r]
                /\ UNCHANGED fn

\* a start that finds a session running ends it first, as a stop would
Halt(t) == /\ ph[t] = "called" /\ fn[t] = "start" /\ wst # "off"
           /\ done' = TRUE
           /\ UNCHANGED <<q, max, wst, wbuf, ph, fn, arg, res>>
\* stops that took effect earlier have nothing to wait for any more (arg 1)
LinStart(t) == /\ Eff(t, "start", NoBuf) /\ wst = "off"
               /\ arg' = [u \in Threads |-> IF ph[u] = "lin" /\ fn[u] = "stop" THEN 1 ELSE arg[u]]
               /\ q' = <<>> /\ done' = FALSE /\ wst' = "check" /\ wbuf' = NoBuf
               /\ UNCHANGED max
LinStop(t)  == /\ Eff(t, "stop", NoBuf) /\ UNCHANGED arg
               /\ done' = TRUE
               /\ UNCHANGED <<q, max, wst, wbuf>>
LinPop(t)   == /\ q # <<>> /\ Eff(t, "proc", Head(q)) /\ UNCHANGED arg
               /\ q' = Tail(q)
               /\ UNCHANGED <<done, max, wst, wbuf>>
LinNone(t)  == /\ q = <<>> /\ done /\ Eff(t, "proc", NoBuf) /\ UNCHANGED arg
               /\ UNCHANGED <<q, done, max, wst, wbuf>>
LinSize(t)  == /\ Eff(t, "size", <<Len(q)>>) /\ UNCHANGED arg
               /\ UNCHANGED <<q, done, max, wst, wbuf>>
LinMax(t)   == /\ Eff(t, "max", NoBuf) /\ UNCHANGED arg
               /\ max' = arg[t]
               /\ UNCHANGED <<q, done, wst, wbuf>>
LinGetMax(t) == /\ Eff(t, "getmax", <<max>>) /\ UNCHANGED arg
                /\ UNCHANGED <<q, done, max, wst, wbuf>>

Lin(t) == LinStart(t) \/ LinStop(t) \/ LinPop(t) \/ LinNone(t) \/ LinSize(t) \/ LinMax(t) \/ LinGetMax(t)

\* "stop" returns only once the producer is off, unless a new session has begun since; only the producer
\* itself may stop and not wait
Ret(t) == /\ ph[t] = "lin"
          /\ (fn[t] = "stop" /\ t # Worker) => (wst = "off" \/ arg[t] = 1)
          /\ ph' = [ph EXCEPT ![t] = "idle"]
          /\ fn' = [fn EXCEPT ![t] = "none"]
          /\ res' = [res EXCEPT ![t] = NoBuf]
          /\ arg' = [arg EXCEPT ![t] = 0]
          /\ UNCHANGED <<q, done, max, wst, wbuf>>

cvars == <<ph, fn, arg, res>>
WCheck == /\ wst = "check" /\ ~done /\ Len(q) < max
          /\ wst' = "go" /\ UNCHANGED <<q, done, max, wbuf, cvars>>
WExit  == /\ wst = "check" /\ done
          /\ wst' = "off" /\ UNCHANGED <<q, done, max, wbuf, cvars>>
PB     == /\ wst = "go"
          /\ wst' = "busy" /\ UNCHANGED <<q, done, max, wbuf, cvars>>
PE(b)  == /\ wst = "busy"
          /\ wst' = "have" /\ wbuf' = b /\ UNCHANGED <<q, done, max, cvars>>
WPush  == /\ wst = "have"
          /\ q' = Append(q, wbuf) /\ wbuf' = NoBuf /\ wst' = "check"
          /\ UNCHANGED <<done, max, cvars>>

\* Nothing can move any more unless a caller acts: the producer is off, or has filled its allowance
Quiescent == wst = "off" \/ (wst = "check" /\ ~done /\ Len(q) >= max)
=============================================================================
