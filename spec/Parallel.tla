------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* The locking protocol of the background-thread module, one action per    *)
(* critical section or synchronisation call: mutex, condition variable,    *)
(* atomic flag, worker, one consumer, two controllers running scripts of   *)
(* start / stop / max calls, serialised by a second mutex while they start *)
(* or join the worker; upstream may stop the module itself (SelfAt).       *)
(* Refines ParallelAbs (property Refines).                                 *)
(*                                                                         *)
(* StopLocked = FALSE is the protocol as first found in the repository     *)
(* (flag stored without the mutex): TLC finds the lost wake-up.  Detach =  *)
(* TRUE is how it let go of a worker that stopped the module itself: TLC   *)
(* finds the second worker.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Script,      \* controller programs: [M |-> .., A |-> ..], sequences of <<op, arg>>
          NProcs,      \* number of proc calls the consumer makes
          Max0,        \* initial limit
          SelfAt,      \* the production during which upstream stops the module (0: none)
          StopLocked,  \* store the stop flag under the mutex
          Detach,      \* a worker that stops the module is let go
          MaxNotify,   \* changing the limit wakes the worker
          Total        \* bound on the number of buffers upstream can make

NoBuf == 0
Ctl == {"M", "A"}
VARIABLES lock, waiting, done, q, max,
          life, thr,                \* who starts or joins the worker; there is a worker to join
          wpc, wbuf, nprod,         \* worker
          cpc, cres, cleft, got,    \* consumer, and everything it received
          mpc, mi,                  \* controllers: pc, script index
          sess, ran                 \* session number, session of each product

vars == <<lock, waiting, done, q, max, life, thr, wpc, wbuf, nprod, cpc, cres, cleft, got, mpc, mi, sess, ran>>

Free == lock = "-"
Init == /\ lock = "-" /\ waiting = {} /\ done = FALSE /\ q = <<>> /\ max = Max0
        /\ life = "-" /\ thr = FALSE
        /\ wpc = "off" /\ wbuf = NoBuf /\ nprod = 0
        /\ cpc = "idle" /\ cres = NoBuf /\ cleft = NProcs /\ got = <<>>
        /\ mpc = [c \in Ctl |-> "next"] /\ mi = [c \in Ctl |-> 1] /\ sess = 0 /\ ran = <<>>

UW == UNCHANGED <<wpc, wbuf, nprod, ran>>
UC == UNCHANGED <<cpc, cres, cleft, got>>
UM == UNCHANGED <<mpc, mi, sess, life, thr>>
US == UNCHANGED <<done, q, max>>

\* ---- worker
Wake(S) == [wpc |-> IF "W" \in S /\ wpc = "waiting" THEN "relock" ELSE wpc,
            cpc |-> IF "C" \in S /\ cpc = "waiting" THEN "relock" ELSE cpc]
WLock   == /\ wpc \in {"lock", "relock"} /\ Free /\ lock' = "W" /\ wpc' = "test"
           /\ UNCHANGED <<waiting, wbuf, nprod, ran>> /\ US /\ UC /\ UM
WTest   == /\ wpc = "test"
           /\ wpc' = IF Len(q) < max \/ done THEN "decide" ELSE "wait"
           /\ UNCHANGED <<lock, waiting, wbuf, nprod, ran>> /\ US /\ UC /\ UM
WWait   == /\ wpc = "wait" /\ lock' = "-" /\ waiting' = waiting \cup {"W"} /\ wpc' = "waiting"
           /\ UNCHANGED <<wbuf, nprod, ran>> /\ US /\ UC /\ UM
WDecide == /\ wpc = "decide" /\ lock' = "-"
           /\ wpc' = IF done THEN "off" ELSE "begin"
           /\ UNCHANGED <<waiting, wbuf, nprod, ran>> /\ US /\ UC /\ UM
WBegin  == /\ wpc = "begin" /\ nprod < Total /\ nprod' = nprod + 1
           /\ wpc' = IF nprod + 1 = SelfAt THEN "busy0" ELSE "busy"
           /\ UNCHANGED <<lock, waiting, wbuf, ran>> /\ US /\ UC /\ UM
\* upstream stops the module: nobody can be waited for
WSelf   == /\ wpc = "busy0" /\ wpc' = "self"
           /\ UNCHANGED <<lock, waiting, wbuf, nprod, ran>> /\ US /\ UC /\ UM
WSelfSet == /\ wpc = "self" /\ Free /\ done' = TRUE /\ wpc' = "selfn" /\ thr' = (thr /\ ~Detach)
            /\ UNCHANGED <<lock, waiting, q, max, wbuf, nprod, ran, mpc, mi, sess, life>> /\ UC
WSelfRet == /\ wpc = "selfn" /\ waiting' = {} /\ wpc' = "busy" /\ cpc' = Wake(waiting).cpc
            /\ UNCHANGED <<lock, wbuf, nprod, cres, cleft, got, ran>> /\ US /\ UM
WEnd    == /\ wpc = "busy" /\ wpc' = "plock" /\ wbuf' = nprod /\ ran' = Append(ran, sess)
           /\ UNCHANGED <<lock, waiting, nprod>> /\ US /\ UC /\ UM
WPush   == /\ wpc = "plock" /\ Free /\ q' = Append(q, wbuf) /\ wbuf' = NoBuf /\ wpc' = "notify"
           /\ UNCHANGED <<lock, waiting, nprod, done, max, ran>> /\ UC /\ UM
WNotify == /\ wpc = "notify" /\ waiting' = {} /\ wpc' = "lock" /\ cpc' = Wake(waiting).cpc
           /\ UNCHANGED <<lock, wbuf, nprod, cres, cleft, got, ran>> /\ US /\ UM
WSpur   == /\ wpc = "waiting" /\ wpc' = "relock" /\ waiting' = waiting \ {"W"}
           /\ UNCHANGED <<lock, wbuf, nprod, ran>> /\ US /\ UC /\ UM

\* ---- consumer
CCall   == /\ cpc = "idle" /\ cleft > 0 /\ cleft' = cleft - 1 /\ cpc' = "lock"
           /\ UNCHANGED <<lock, waiting, cres, got>> /\ US /\ UW /\ UM
CLock   == /\ cpc \in {"lock", "relock"} /\ Free /\ lock' = "C" /\ cpc' = "test"
           /\ UNCHANGED <<waiting, cres, cleft, got>> /\ US /\ UW /\ UM
CTest   == /\ cpc = "test"
           /\ cpc' = IF q # <<>> \/ done THEN "decide" ELSE "wait"
           /\ UNCHANGED <<lock, waiting, cres, cleft, got>> /\ US /\ UW /\ UM
CWait   == /\ cpc = "wait" /\ lock' = "-" /\ waiting' = waiting \cup {"C"} /\ cpc' = "waiting"
           /\ UNCHANGED <<cres, cleft, got>> /\ US /\ UW /\ UM
CDecide == /\ cpc = "decide" /\ lock' = "-"
           /\ IF done /\ q = <<>>
                THEN cpc' = "ret" /\ cres' = NoBuf /\ q' = q
                ELSE cpc' = "notify" /\ cres' = Head(q) /\ q' = Tail(q)
           /\ UNCHANGED <<waiting, cleft, got, done, max>> /\ UW /\ UM
CNotify == /\ cpc = "notify" /\ waiting' = {} /\ cpc' = "ret" /\ wpc' = Wake(waiting).wpc
           /\ UNCHANGED <<lock, cres, cleft, got, wbuf, nprod, ran>> /\ US /\ UM
CRet    == /\ cpc = "ret" /\ cpc' = "idle" /\ cres' = NoBuf
           /\ got' = IF cres = NoBuf THEN got ELSE Append(got, cres)
           /\ UNCHANGED <<lock, waiting, cleft>> /\ US /\ UW /\ UM
CSpur   == /\ cpc = "waiting" /\ cpc' = "relock" /\ waiting' = waiting \ {"C"}
           /\ UNCHANGED <<lock, cres, cleft, got>> /\ US /\ UW /\ UM

\* ---- controllers
Op(c) == Script[c][mi[c]][1]
Go(c, x) == mpc' = [mpc EXCEPT ![c] = x]
Over(c) == mpc' = [mpc EXCEPT ![c] = "next"] /\ mi' = [mi EXCEPT ![c] = @ + 1]
MNext(c)  == /\ mpc[c] = "next" /\ mi[c] <= Len(Script[c]) /\ Go(c, Op(c))
             /\ UNCHANGED <<lock, waiting, mi, sess, life, thr>> /\ US /\ UW /\ UC
\* start: a worker that is still around is ended first
MStart(c) == /\ mpc[c] = "start" /\ life = "-" /\ life' = c /\ Go(c, IF thr THEN "hset" ELSE "reset")
             /\ UNCHANGED <<lock, waiting, mi, sess, thr>> /\ US /\ UW /\ UC
MReset(c) == /\ mpc[c] = "reset" /\ Free /\ q' = <<>> /\ done' = FALSE /\ Go(c, "spawn") /\ sess' = sess + 1
             /\ UNCHANGED <<lock, waiting, max, mi, life, thr>> /\ UW /\ UC
MSpawn(c) == /\ mpc[c] = "spawn" /\ wpc' = "lock" /\ thr' = TRUE /\ life' = "-" /\ Over(c)
             /\ UNCHANGED <<lock, waiting, wbuf, nprod, sess, ran>> /\ US /\ UC
\* stop
MStop(c)  == /\ mpc[c] = "stop" /\ life = "-" /\ life' = c /\ Go(c, "sset")
             /\ UNCHANGED <<lock, waiting, mi, sess, thr>> /\ US /\ UW /\ UC
\* both: set the flag, wake everybody, wait for the worker
MSet(c)   == /\ mpc[c] \in {"sset", "hset"} /\ (StopLocked => Free) /\ done' = TRUE
             /\ Go(c, IF mpc[c] = "sset" THEN "snotify" ELSE "hnotify")
             /\ UNCHANGED <<lock, waiting, q, max, mi, sess, life, thr>> /\ UW /\ UC
MSNotify(c) == /\ mpc[c] \in {"snotify", "hnotify"} /\ waiting' = {}
               /\ Go(c, IF mpc[c] = "snotify" THEN "sjoin" ELSE "hjoin")
               /\ wpc' = Wake(waiting).wpc /\ cpc' = Wake(waiting).cpc
               /\ UNCHANGED <<lock, mi, sess, life, thr, wbuf, nprod, cres, cleft, got, ran>> /\ US
MHJoin(c) == /\ mpc[c] = "hjoin" /\ wpc = "off" /\ thr' = FALSE /\ Go(c, "reset")
             /\ UNCHANGED <<lock, waiting, mi, sess, life>> /\ US /\ UW /\ UC
MJoin(c)  == /\ mpc[c] = "sjoin" /\ (thr => wpc = "off") /\ thr' = FALSE /\ life' = "-" /\ Over(c)
             /\ UNCHANGED <<lock, waiting, sess>> /\ US /\ UW /\ UC
MMax(c)   == /\ mpc[c] = "max" /\ (MaxNotify => Free) /\ max' = Script[c][mi[c]][2]
             /\ Go(c, IF MaxNotify THEN "mnotify" ELSE "mdone")
             /\ UNCHANGED <<lock, waiting, done, q, mi, sess, life, thr>> /\ UW /\ UC
MMNotify(c) == /\ mpc[c] = "mnotify" /\ waiting' = {} /\ Go(c, "mdone")
               /\ wpc' = Wake(waiting).wpc /\ cpc' = Wake(waiting).cpc
               /\ UNCHANGED <<lock, mi, sess, life, thr, wbuf, nprod, cres, cleft, got, ran>> /\ US
MMDone(c) == /\ mpc[c] = "mdone" /\ Over(c)
             /\ UNCHANGED <<lock, waiting, sess, life, thr>> /\ US /\ UW /\ UC

WorkerStep == WLock \/ WTest \/ WWait \/ WDecide \/ WBegin \/ WSelf \/ WSelfSet \/ WSelfRet \/ WEnd \/ WPush \/ WNotify
ConsStep   == CCall \/ CLock \/ CTest \/ CWait \/ CDecide \/ CNotify \/ CRet
Blocking(c) == MStart(c) \/ MStop(c) \/ MReset(c) \/ MSet(c) \/ MMax(c)
Plain(c) == MNext(c) \/ MSpawn(c) \/ MSNotify(c) \/ MHJoin(c) \/ MJoin(c) \/ MMNotify(c) \/ MMDone(c)
CtrlStep(c) == Blocking(c) \/ Plain(c)
Finished == (\A c \in Ctl : mi[c] > Len(Script[c])) /\ cleft = 0 /\ cpc = "idle"
Next == WorkerStep \/ ConsStep \/ (\E c \in Ctl : CtrlStep(c)) \/ WSpur \/ CSpur
Fair == /\ SF_vars(WLock \/ WPush \/ WSelfSet)
        /\ WF_vars(WTest \/ WWait \/ WDecide \/ WBegin \/ WSelf \/ WSelfRet \/ WEnd \/ WNotify)
        /\ SF_vars(CLock) /\ WF_vars(CCall \/ CTest \/ CWait \/ CDecide \/ CNotify \/ CRet)
        /\ \A c \in Ctl : SF_vars(Blocking(c)) /\ WF_vars(Plain(c))
Spec == Init /\ [][Next]_vars /\ Fair

\* ---- properties
MaxOf(s) == CHOOSE m \in s : \A x \in s : x <= m
Limits == {Max0} \cup {o[2] : o \in {x \in UNION {{Script[c][i] : i \in 1..Len(Script[c])} : c \in Ctl} : x[1] = "max"}}
Bound == Len(q) <= MaxOf(Limits)                       \* C02
InOrder == \A i \in 1..Len(got) : \A j \in 1..Len(got) : i < j => got[i] < got[j]   \* C01
\* nothing of a session is lost: what was received, what waits and what is in flight are all that was made
NoLoss == LET cur == {k \in 1..Len(ran) : ran[k] = sess}
              have == {got[i] : i \in 1..Len(got)} \cup {q[i] : i \in 1..Len(q)} \cup
                      (IF wbuf = NoBuf THEN {} ELSE {wbuf}) \cup (IF cres = NoBuf THEN {} ELSE {cres})
          IN cur \subseteq have
Contig == \A i \in 1..Len(q)-1 : q[i+1] = q[i] + 1
NoStale == \A i \in 1..Len(q) : ran[q[i]] = sess       \* C04: a new session starts empty
OneWorker == \A c \in Ctl : mpc[c] \in {"reset", "spawn"} => wpc = "off"
\* C03
Calls == UNION {{<<c, i>> : i \in 1..Len(Script[c])} : c \in Ctl}
StopReturns == \A x \in Calls : (mi[x[1]] = x[2]) ~> (mi[x[1]] > x[2])
Released == (cpc = "waiting") ~> (cpc # "waiting")
AllDone == <>Finished
Resumes == (wpc = "waiting" /\ Len(q) < max) ~> ~(wpc = "waiting" /\ Len(q) < max)
NothingRunsAfterStop == [][(wpc = "off" /\ wpc' # "off") => \E c \in Ctl : mpc[c] = "spawn"]_vars

AbsThreads == {"C", "M", "A", "W"}
Abs == INSTANCE ParallelAbs WITH
    Threads <- AbsThreads, Worker <- "W", NoBuf <- 0,
    q <- q, done <- done, max <- max, wbuf <- wbuf,
    wst <- CASE wpc = "off" -> (IF \E c \in Ctl : mpc[c] = "spawn" THEN "check" ELSE "off")
             [] wpc \in {"lock", "relock", "test", "wait", "waiting", "decide", "notify"} -> "check"
             [] wpc = "begin" -> "go" [] wpc \in {"busy", "busy0", "self", "selfn"} -> "busy" [] wpc = "plock" -> "have",
    ph <- [t \in AbsThreads |->
             CASE t = "C" -> (CASE cpc = "idle" -> "idle" [] cpc \in {"notify", "ret"} -> "lin" [] OTHER -> "called")
               [] t \in Ctl -> (CASE mpc[t] = "next" -> "idle"
                                  [] mpc[t] \in {"start", "hset", "hnotify", "hjoin", "reset", "stop", "sset", "max"} -> "called"
                                  [] OTHER -> "lin")
               [] OTHER -> (CASE wpc = "self" -> "called" [] wpc = "selfn" -> "lin" [] OTHER -> "idle")],
    fn <- [t \in AbsThreads |->
             CASE t = "C" -> (IF cpc = "idle" THEN "none" ELSE "proc")
               [] t \in Ctl -> (IF mpc[t] = "next" THEN "none" ELSE Op(t))
               [] OTHER -> (IF wpc \in {"self", "selfn"} THEN "stop" ELSE "none")],
    arg <- [t \in AbsThreads |-> IF t \in Ctl THEN (IF mpc[t] # "next" /\ Op(t) = "max" THEN Script[t][mi[t]][2] ELSE 0) ELSE 0],
    res <- [t \in AbsThreads |-> IF t = "C" THEN cres ELSE 0]

AbsStep == \/ \E t \in AbsThreads : Abs!Lin(t) \/ Abs!Halt(t) \/ Abs!Ret(t)
           \/ Abs!Call("C", "proc", 0) \/ Abs!Call("W", "stop", 0)
           \/ \E c \in Ctl, a \in 0..5, f \in {"start", "stop", "max"} : Abs!Call(c, f, a)
           \/ Abs!WCheck \/ Abs!WExit \/ Abs!PB \/ Abs!WPush \/ \E b \in 1..Total : Abs!PE(b)
Refines == Abs!AInit(Max0) /\ [][AbsStep]_(Abs!avars)
=============================================================================
