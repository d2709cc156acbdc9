------------------------------- MODULE MCOwn -------------------------------
(* Two collections and the caller hand objects to each other.               *)
EXTENDS Own, Json
CONSTANTS MaxObj, MaxSteps, Gen
VARIABLES c, with, dead, made, steps, hist
vars == <<c, with, dead, made, steps, hist>>
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Init == c = <<<<>>, <<>>>> /\ with = {} /\ dead = {} /\ made = 0 /\ steps = 0 /\ hist = <<>>
New == /\ Tick /\ made < MaxObj /\ made' = made + 1 /\ with' = with \cup {made + 1} /\ H(<<"new">>) /\ UNCHANGED <<c, dead>>
DoAdd == /\ Tick /\ \E k \in 1..2, o \in with \cup {0} :
              c' = [c EXCEPT ![k] = Add(@, o).c] /\ with' = with \ {o} /\ H(<<"add", k, o>>)
         /\ UNCHANGED <<dead, made>>
DoRelease == /\ Tick /\ \E k \in 1..2 : \E i \in 0..(Len(c[k]) - 1) :
                  /\ c' = [c EXCEPT ![k] = Release(@, i).c] /\ with' = (with \cup {c[k][i + 1]}) \ {0} /\ H(<<"release", k, i>>)
             /\ UNCHANGED <<dead, made>>
DoFree == /\ Tick /\ \E k \in 1..2 : \E i \in 0..(Len(c[k]) - 1) :
               /\ c' = [c EXCEPT ![k] = Free(@, i).c] /\ dead' = dead \cup Free(c[k], i).dead /\ H(<<"free", k, i>>)
          /\ UNCHANGED <<with, made>>
DoClear == /\ Tick /\ \E k \in 1..2, f \in {"clear", "end"} :
                c' = [c EXCEPT ![k] = <<>>] /\ dead' = dead \cup Objects(c[k]) /\ H(<<f, k>>)
           /\ UNCHANGED <<with, made>>
Move == /\ Tick /\ \E k \in 1..2 : /\ c' = [c EXCEPT ![3 - k] = c[k], ![k] = <<>>]
                                   /\ dead' = dead \cup Objects(c[3 - k]) /\ H(<<"move", k>>)
        /\ UNCHANGED <<with, made>>
Next == New \/ DoAdd \/ DoRelease \/ DoFree \/ DoClear \/ Move
Spec == Init /\ [][Next]_vars
View == <<c, with, dead, made, steps>>
\* every object is in one place: with the caller, in one slot of one collection, or freed
Places(o) == (IF o \in with THEN 1 ELSE 0) + (IF o \in dead THEN 1 ELSE 0)
             + Cardinality({<<k, i>> \in (1..2) \X (1..MaxSteps) : i <= Len(c[k]) /\ c[k][i] = o})
Once == \A o \in 1..made : Places(o) = 1
Dead == [][dead \subseteq dead']_vars
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
=============================================================================
