SPECIFICATION Spec
CONSTANTS MaxIn = 4 MaxSize = 3 MaxCalls = 5 Gen = FALSE
INVARIANT Lossless
INVARIANT Frugal
PROPERTY PullOk
VIEW View
CHECK_DEADLOCK FALSE
