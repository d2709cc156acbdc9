SPECIFICATION Spec
CONSTANTS MaxT = 9 MaxSteps = 12 MaxEnvs = 4 Gen = TRUE
INVARIANT ListOk
INVARIANT ChunkOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
