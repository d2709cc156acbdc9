SPECIFICATION Spec
CONSTANTS MaxObj = 3 MaxSteps = 7 Gen = FALSE
INVARIANT Once
PROPERTY Dead
VIEW View
CHECK_DEADLOCK FALSE
