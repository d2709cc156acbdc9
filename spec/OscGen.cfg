SPECIFICATION Spec
CONSTANTS Rates = {128, 32000} Freqs = {0, 1, 16, 33, 1200, 32100} Neg = {1, 16} MaxCh = 3 MaxSize = 4 MaxSteps = 10 Gen = TRUE
INVARIANT Computes
INVARIANT Joined
INVARIANT Same
INVARIANT InRange
INVARIANT Emit
CHECK_DEADLOCK FALSE
