SPECIFICATION Spec
CONSTANTS MaxFrames = 3 MaxCh = 3 MaxSteps = 4 Gen = FALSE
INVARIANT Permutes
INVARIANT InOrder
INVARIANT Memory
INVARIANT PosInverse
INVARIANT OneMemory
INVARIANT ReadBack
INVARIANT Promised
INVARIANT Period
VIEW View
CHECK_DEADLOCK FALSE
