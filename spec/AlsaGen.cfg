SPECIFICATION Spec
CONSTANTS MaxBlocks = 12 MaxSteps = 14 Gen = TRUE
INVARIANT Order
INVARIANT Emit
CHECK_DEADLOCK FALSE
