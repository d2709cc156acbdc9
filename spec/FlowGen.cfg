SPECIFICATION Spec
CONSTANTS MaxIn = 4 MaxSize = 3 MaxCalls = 8 Gen = TRUE
INVARIANT Lossless
INVARIANT Emit
CHECK_DEADLOCK FALSE
