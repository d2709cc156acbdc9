SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxSteps = 5 MaxEnvs = 2 Gen = FALSE
INVARIANT ListOk
INVARIANT ChunkOk
INVARIANT Cur
VIEW View
CHECK_DEADLOCK FALSE
