SPECIFICATION Spec
CONSTANTS MaxFrames = 4 MaxCh = 3 MaxSteps = 14 Gen = TRUE
INVARIANT Permutes
INVARIANT Memory
INVARIANT PosInverse
INVARIANT Emit
CHECK_DEADLOCK FALSE
