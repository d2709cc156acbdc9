SPECIFICATION Spec
CONSTANTS Sessions = 2 Procs = 3 Max0 = 2 Max1 = 2 UpFirst = FALSE
INVARIANT Order
INVARIANT NoEmpty
INVARIANT Ahead
INVARIANT Quiet
PROPERTY Ends
CHECK_DEADLOCK FALSE
