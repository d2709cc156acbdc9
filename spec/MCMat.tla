------------------------------- MODULE MCMat -------------------------------
(* Buffers as matrices: what a product of any two matrices within the bounds *)
(* must satisfy, and histories of products.                                  *)
EXTENDS Buf, Json
CONSTANTS Vals, MaxDim, MaxSteps, Gen
VARIABLES a, b, c, steps, hist
vars == <<a, b, c, steps, hist>>
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Id(n) == Buffer([i \in 1..(n * n) |-> IF (i - 1) % n = (i - 1) \div n THEN 1 ELSE 0], n, 0)
Prod(x, y) == Buffer(MatMul(x, y), x.ch, 0)
Transposed(x) == Buffer([i \in 1..Size(x) |-> MatAt(x, (i - 1) \div Cap(x), (i - 1) % Cap(x))], Cap(x), 0)
Init == a = Id(1) /\ b = Id(1) /\ c = Id(1) /\ steps = 0 /\ hist = <<>>
\* the accumulated matrix is multiplied by a new one of a shape that fits
Step == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ IF Gen THEN \E q \in 1..MaxDim : LET v == [i \in 1..(Cap(c) * q) |-> RandomElement(Vals)]
                       IN /\ b' = Buffer(v, Cap(c), 0) /\ H(<<"mul", Cap(c), v>>) /\ a' = c /\ c' = Prod(c, b')
           ELSE \E q \in 1..MaxDim : \E v \in [1..(Cap(c) * q) -> Vals] :
                       b' = Buffer(v, Cap(c), 0) /\ H(<<"mul", Cap(c), v>>) /\ a' = c /\ c' = Prod(c, b')
\* start again from any matrix
Fresh == /\ steps < MaxSteps /\ steps' = steps + 1
         /\ IF Gen THEN \E r \in 1..MaxDim, q \in 1..MaxDim : LET v == [i \in 1..(r * q) |-> RandomElement(Vals)]
                        IN c' = Buffer(v, r, 0) /\ H(<<"mat", r, v>>)
            ELSE \E r \in 1..MaxDim, q \in 1..MaxDim : \E v \in [1..(r * q) -> Vals] : c' = Buffer(v, r, 0) /\ H(<<"mat", r, v>>)
         /\ a' = c' /\ b' = Id(Cap(c'))
Next == Step \/ Fresh
Spec == Init /\ [][Next]_vars
View == <<a, b, c, steps>>
Shape == c.ch = a.ch /\ Cap(c) = Cap(b)
\* every element is a row times a column; ones change nothing; transposing turns products round
RowColumn == \A r \in 0..(a.ch - 1), q \in 0..(Cap(b) - 1) :
                MatAt(c, r, q) = Sum([k \in 1..Cap(a) |-> Walk("seq", a)[r * Cap(a) + k] * Walk("inter", b)[q * b.ch + k]])
Ones == Prod(Id(c.ch), c) = c /\ Prod(c, Id(Cap(c))) = c
Turned == Transposed(c) = Prod(Transposed(b), Transposed(a))
Associative == \A q \in 1..2 : LET d == Buffer([i \in 1..(Cap(b) * q) |-> i], Cap(b), 0) IN Prod(c, d) = Prod(a, Prod(b, d))
Emit == (Gen /\ steps = MaxSteps) => PrintT(ToJson(hist))
=============================================================================
