----------------------------- MODULE OwnTrace -----------------------------
(* Operations on real collections of objects that report their destruction. *)
EXTENDS TraceKit, Own
VARIABLE s
Init == KitInit /\ s = [c |-> <<<<>>, <<>>>>, with |-> {}, dead |-> {}, made |-> 0]
\* the observation: what every slot of both collections gives, and everything freed so far, each once
Shows(t) == E.c = t.c /\ E.n = <<Len(t.c[1]), Len(t.c[2])>> /\ Len(E.dead) = Cardinality(t.dead) /\ ToSet(E.dead) = t.dead
Now(t) == s' = t /\ Shows(t)
Cur == s.c[E.k]
Apply(r, with) == Now([s EXCEPT !.c[E.k] = r.c, !.dead = @ \cup r.dead, !.with = with])
TNew == Is("new") /\ Now([s EXCEPT !.made = @ + 1, !.with = @ \cup {E.o}]) /\ E.o = s.made + 1
TAdd == Is("add") /\ Apply(Add(Cur, E.o), s.with \ {E.o}) /\ E.left = 0
TRelease == Is("release") /\ Apply(Release(Cur, E.i), (s.with \cup {E.o}) \ {0}) /\ E.o = Cur[E.i + 1]
TFree == Is("free") /\ Apply(Free(Cur, E.i), s.with)
TClear == Is("clear") /\ Apply(Clear(Cur), s.with)
TEnd == Is("end") /\ Apply(Clear(Cur), s.with)
TMove == Is("move") /\ Now([s EXCEPT !.c[3 - E.k] = Cur, !.c[E.k] = <<>>, !.dead = @ \cup Objects(s.c[3 - E.k])])
TDrop == Is("drop") /\ Now([s EXCEPT !.with = @ \ {E.o}, !.dead = @ \cup {E.o}]) /\ E.o \in s.with
TOut == /\ Is("out") /\ UNCHANGED s /\ Shows(s) /\ E.ex = 1   \* an index that is not there is refused
\* a method called through the helper: its result, and its arguments passed on, references as references
TInvoke == Is("invoke") /\ UNCHANGED s /\ E.r = E.x * 10 + E.y /\ E.y2 = E.y + 1 /\ E.calls = 1 /\ E.moved = 1
Next == TNew \/ TAdd \/ TRelease \/ TFree \/ TClear \/ TEnd \/ TMove \/ TDrop \/ TOut \/ TInvoke
Spec == Init /\ [][Next]_<<tid, l, s>>
=============================================================================
