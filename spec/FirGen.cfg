SPECIFICATION SpecFir
CONSTANTS Vals <- WideVals MaxK = 3 MaxFrames = 2 MaxSteps = 10 Gen = TRUE
INVARIANT Whole
INVARIANT Computes
INVARIANT Emit
CHECK_DEADLOCK FALSE
