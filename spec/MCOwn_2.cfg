SPECIFICATION Spec
CONSTANTS MaxObj = 4 MaxSteps = 9 Gen = FALSE
INVARIANT Once
PROPERTY Dead
VIEW View
CHECK_DEADLOCK FALSE
