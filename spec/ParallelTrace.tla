---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded executions of the real module against ParallelAbs.  cfg.max is   *)
(* the initial limit.  Events, in the order they really happened:            *)
(*   call/ret (th, fn, arg / res)   public calls                             *)
(*   pb / pe                        upstream begins / finishes one buffer    *)
(*   upstart / upstop               the upstream chain is started / stopped  *)
(*   quiet                          nobody but the callers can move          *)
(*   end                            every caller returned                    *)
(*   reset                          the next recorded schedule follows       *)
(*   deadlock, limit, crash         accepted nowhere                         *)
EXTENDS TraceKit

NoBuf == <<>>
ThreadSet == {"M", "C", "A", "W", "X"}   \* X: the background thread of another module in front of this one
VARIABLES q, done, max, wst, wbuf, ph, fn, arg, res
P == INSTANCE ParallelAbs WITH Threads <- ThreadSet, Worker <- "W"
vars == <<q, done, max, wst, wbuf, ph, fn, arg, res>>

TInit == KitInit /\ P!AInit(Cfg.max)

Reset == /\ q' = <<>> /\ done' = FALSE /\ max' = Cfg.max /\ wst' = "off" /\ wbuf' = NoBuf
         /\ ph' = [t \in ThreadSet |-> "idle"] /\ fn' = [t \in ThreadSet |-> "none"]
         /\ arg' = [t \in ThreadSet |-> 0] /\ res' = [t \in ThreadSet |-> NoBuf]

\* a silent step is only tried when it can matter: something is pending
TNext == \/ Is("call") /\ P!Call(E.th, E.fn, E.arg)
         \/ Is("ret") /\ ph[E.th] = "lin" /\ fn[E.th] = E.fn /\ res[E.th] = E.res /\ P!Ret(E.th)
         \/ Is("pb") /\ P!PB
         \/ Is("pe") /\ P!PE(E.buf)
         \/ Is("upstart") /\ wst = "off" /\ UNCHANGED vars      \* the upstream chain is started and stopped
         \/ Is("upstop") /\ wst = "off" /\ UNCHANGED vars       \* only while nothing runs it
         \/ Is("quiet") /\ P!Quiescent /\ UNCHANGED vars
         \/ Is("end") /\ (\A t \in ThreadSet : ph[t] = "idle") /\ UNCHANGED vars
         \/ Is("runs") /\ UNCHANGED vars
         \/ Is("reset") /\ Reset
         \/ Silent /\ (P!WCheck \/ P!WExit \/ P!WPush \/ \E t \in ThreadSet : P!Lin(t) \/ P!Halt(t))
TSpec == TInit /\ [][TNext]_<<tid, l, vars>>
=============================================================================
