SPECIFICATION SpecFir
CONSTANTS Vals = {1, 3} MaxK = 3 MaxFrames = 2 MaxSteps = 4 Gen = FALSE
INVARIANT Whole
INVARIANT Computes
INVARIANT Commutes
VIEW View
CHECK_DEADLOCK FALSE
