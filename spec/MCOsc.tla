------------------------------- MODULE MCOsc -------------------------------
(* An oscillator run in buffers of any size, its frequency changed, its      *)
(* phase saved and restored: as specified, and as computed sample by sample. *)
EXTENDS Osc, Json, TLC, FiniteSets
CONSTANTS Rates, Freqs, Neg, MaxCh, MaxSize, MaxSteps, Gen
VARIABLES o, ph, out, want, seen, saved, steady, steps, hist
vars == <<o, ph, out, want, seen, saved, steady, steps, hist>>
\* a negative frequency runs the wave backwards
Fs == Freqs \union {-f : f \in Neg}
Kinds == {"sine", "square", "saw", "triangle"}
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Tick == steps < MaxSteps /\ steps' = steps + 1
Init == /\ \E k \in Kinds, m \in BOOLEAN, c \in 1..MaxCh, r \in Rates, z \in 1..MaxSize, f \in Fs :
             /\ o = Fresh(k, m, c, r, z, f)
             /\ hist = IF Gen THEN <<<<"new", k, m, c, r, z, f>>>> ELSE <<>>
        /\ ph = 0 /\ out = <<>> /\ want = <<>> /\ seen = <<>> /\ saved = 0 /\ steady = TRUE /\ steps = 0
\* phase p in frames, or in 1/r periods when modulated; sample i of a buffer
RECURSIVE Loop(_, _, _, _)
Loop(p, i, fs, acc) ==
    IF i > o.size * o.ch THEN [p |-> p, v |-> acc]
    ELSE LET a == IF o.mod THEN p % o.r ELSE (o.f * p) % o.r
             last == i % o.ch = 0
             q == IF ~last THEN p ELSE IF o.mod THEN p + fs[((i - 1) \div o.ch) + 1] ELSE p + 1
         IN Loop(q, i + 1, fs, Append(acc, Wave(o.kind, a, o.r)))
Run(fs) == /\ Tick
           /\ LET r == Loop(ph, 1, fs, <<>>)
              IN /\ out' = r.v /\ ph' = r.p /\ want' = Buffer(o, fs) /\ o' = Advance(o, fs)
                 /\ seen' = IF steady THEN seen \o [i \in 1..o.size |-> r.v[(i - 1) * o.ch + 1]] ELSE <<>>
           /\ H(<<"block", fs>>) /\ UNCHANGED <<saved, steady>>
Block == \E v \in Fs, w \in Fs : IF o.mod THEN /\ Run([i \in 1..o.size |-> IF i % 2 = 1 THEN v ELSE w])
                                       ELSE v = o.f /\ w = o.f /\ Run([i \in 1..o.size |-> o.f])
SetF == /\ Tick /\ ~o.mod /\ \E f \in Fs \ {o.f} : o' = [o EXCEPT !.f = f] /\ H(<<"freq", f>>)
        /\ steady' = FALSE /\ UNCHANGED <<ph, out, want, seen, saved>>
Resize == /\ Tick /\ \E z \in 1..MaxSize \ {o.size} : o' = [o EXCEPT !.size = z] /\ H(<<"size", z>>)
          /\ UNCHANGED <<ph, out, want, seen, saved, steady>>
Save == Tick /\ saved' = Phase(o) /\ H(<<"save">>) /\ UNCHANGED <<o, ph, out, want, seen, steady>>
Restore == /\ Tick /\ o' = Resume(o, saved) /\ ph' = saved /\ steady' = FALSE /\ H(<<"restore">>)
           /\ UNCHANGED <<out, want, seen, saved>>
Next == Block \/ SetF \/ Resize \/ Save \/ Restore
Spec == Init /\ [][Next]_vars
View == <<o, ph, out, want, seen, saved, steady, steps>>
Computes == out = want
\* the buffers put together are one wave, however it is cut
Joined == (steady /\ ~o.mod) => seen = [i \in 1..Len(seen) |-> Wave(o.kind, ((i - 1) * o.f) % o.r, o.r)]
\* a modulated oscillator at a constant frequency is the plain one
Same == LET fs == [i \in 1..o.size |-> o.f] p == Fresh(o.kind, FALSE, o.ch, o.r, o.size, o.f)
        IN Buffer(p, fs) = Buffer([p EXCEPT !.mod = TRUE], fs)
InRange == \A i \in 1..Len(out) : out[i] \in (-SC)..SC
\* one period: odd symmetry (up to rounding and jumps), values of the corners
Shape == steps = 0 => \A k \in Kinds, r \in Rates : \A a \in 1..(r - 1) :
           /\ Jumps(k, a, r) \/ (Wave(k, a, r) + Wave(k, r - a, r)) \in -2..2
           /\ Wave(k, 0, r) = IF k = "square" THEN SC ELSE 0
           /\ (4 * a = r) => Wave(k, a, r) = IF k = "saw" THEN SC \div 2 ELSE SC
           /\ (4 * a = 3 * r) => Wave(k, a, r) = IF k = "saw" THEN -(SC \div 2) ELSE -SC
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
\* backwards is the mirror image, except where the wave jumps
Mirror == steps = 0 => \A i \in 0..11 : LET b == [o EXCEPT !.f = -@] IN
            /\ At(b, i) = (o.r - At(o, i)) % o.r
            /\ Jumps(o.kind, At(o, i), o.r) \/ (Wave(o.kind, At(o, i), o.r) + Wave(o.kind, At(b, i), o.r)) \in -2..2
=============================================================================
