SPECIFICATION Spec
CONSTANTS MaxBlocks = 6 MaxSteps = 10 Gen = FALSE
INVARIANT Fine
INVARIANT Order
INVARIANT OneStream
VIEW View
CHECK_DEADLOCK FALSE
