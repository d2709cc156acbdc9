SPECIFICATION SpecIir
CONSTANTS Vals = {0, 1, 3} MaxK = 3 MaxFrames = 1 MaxSteps = 6 Gen = FALSE
INVARIANT Computes
VIEW View
CHECK_DEADLOCK FALSE
