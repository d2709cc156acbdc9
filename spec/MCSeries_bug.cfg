SPECIFICATION Spec
CONSTANTS Sessions = 2 Procs = 2 Max0 = 1 Max1 = 1 UpFirst = TRUE
INVARIANT Order
INVARIANT NoEmpty
INVARIANT Ahead
INVARIANT Quiet
CHECK_DEADLOCK FALSE
