-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Collections that own objects.  A collection is a sequence of slots, each *)
(* with an object or 0 (given up).  An object is with the caller, in one    *)
(* slot, or freed.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Objects(c) == {c[i] : i \in 1..Len(c)} \ {0}
\* results: the collection afterwards and the objects freed by the operation
Add(c, o) == [c |-> Append(c, o), dead |-> {}]
Release(c, i) == [c |-> [c EXCEPT ![i + 1] = 0], dead |-> {}]
Free(c, i) == [c |-> RemoveAt(c, i + 1), dead |-> {c[i + 1]} \ {0}]
Clear(c) == [c |-> <<>>, dead |-> Objects(c)]
=============================================================================
