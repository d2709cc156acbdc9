SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxSteps = 6 MaxEnvs = 3 Gen = FALSE
INVARIANT ListOk
INVARIANT ChunkOk
INVARIANT Cur
VIEW View
CHECK_DEADLOCK FALSE
