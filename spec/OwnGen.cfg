SPECIFICATION Spec
CONSTANTS MaxObj = 8 MaxSteps = 16 Gen = TRUE
INVARIANT Once
INVARIANT Emit
CHECK_DEADLOCK FALSE
