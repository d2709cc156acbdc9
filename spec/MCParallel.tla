----------------------------- MODULE MCParallel -----------------------------
EXTENDS Parallel
Start == <<"start", 0>>
Stop == <<"stop", 0>>
SetMax(n) == <<"max", n>>
Two(m, a) == [c \in Ctl |-> IF c = "M" THEN m ELSE a]
S1 == Two(<<Start, Stop, Start, Stop>>, <<>>)
S2 == Two(<<Start, SetMax(2), Stop>>, <<>>)
S3 == Two(<<Start, SetMax(1), SetMax(0), Stop, Stop>>, <<>>)
S4 == Two(<<Start, Stop, Stop, Start, SetMax(2), Stop>>, <<>>)
S5 == Two(<<Start, SetMax(1)>>, <<>>)
S6 == Two(<<Start, Stop>>, <<Stop>>)              \* stopped from two sides
S7 == Two(<<Start, Start, Stop>>, <<>>)           \* started while running
S8 == Two(<<Start, Start, Stop>>, <<Stop>>)
S9 == Two(<<Start, Stop, Start, SetMax(2), Stop>>, <<Stop, SetMax(1)>>)
=============================================================================
