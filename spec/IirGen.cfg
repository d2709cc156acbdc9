SPECIFICATION SpecIir
CONSTANTS Vals <- WideVals MaxK = 3 MaxFrames = 2 MaxSteps = 14 Gen = TRUE
INVARIANT Computes
INVARIANT Emit
CHECK_DEADLOCK FALSE
