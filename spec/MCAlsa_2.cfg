SPECIFICATION Spec
CONSTANTS MaxBlocks = 9 MaxSteps = 14 Gen = FALSE
INVARIANT Fine
INVARIANT Order
INVARIANT OneStream
VIEW View
CHECK_DEADLOCK FALSE
