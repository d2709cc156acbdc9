------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common part of every trace specification.  The file named by VF_TRACES  *)
(* holds one JSON object per line, one recorded execution each:            *)
(*   {"cfg": {...}, "ev": [{"op": ...}, ...]}                              *)
(* A trace specification has one initial state per execution (tid) and     *)
(* consumes its events one by one (l).  The highest position reached is    *)
(* kept in TLC register tid (hence -workers 1), so silent steps and        *)
(* nondeterminism are fine; an execution is accepted iff all its events    *)
(* were consumed on some path.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
NT == Len(Traces)

VARIABLES tid, l

ASSUME \A i \in 1..NT : TLCSet(i, 0)

KitInit == tid \in 1..NT /\ l = 1
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
More == l <= Len(Ev)
E == Ev[l]
Is(op) == More /\ E.op = op /\ l' = l + 1 /\ tid' = tid
Silent == More /\ UNCHANGED <<tid, l>>

Reached == TLCSet(tid, IF TLCGet(tid) < l THEN l ELSE TLCGet(tid))

Post == /\ \A i \in 1..NT : \/ TLCGet(i) = Len(Traces[i].ev) + 1
                            \/ PrintT(<<"VF_REJECT", i, TLCGet(i)>>)
        /\ PrintT("VF_POST_DONE")
=============================================================================
