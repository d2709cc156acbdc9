SPECIFICATION Spec
CONSTANTS MaxSteps = 12 MaxLen = 20 Gen = TRUE
INVARIANT StreamIsMemory
INVARIANT Emit
CHECK_DEADLOCK FALSE
