SPECIFICATION Spec
CONSTANTS
  Script <- S7
  NProcs = 1
  Max0 = 1
  SelfAt = 1
  StopLocked = TRUE
  Detach = TRUE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
CHECK_DEADLOCK FALSE
