SPECIFICATION Spec
CONSTANTS Rates = {8, 12} Freqs = {0, 1, 3, 12} Neg = {1, 3} MaxCh = 2 MaxSize = 2 MaxSteps = 4 Gen = FALSE
INVARIANT Computes
INVARIANT Joined
INVARIANT Same
INVARIANT InRange
INVARIANT Shape
INVARIANT Mirror
VIEW View
CHECK_DEADLOCK FALSE
