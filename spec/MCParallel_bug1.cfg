SPECIFICATION Spec
CONSTANTS
  Script <- S1
  NProcs = 1
  Max0 = 1
  SelfAt = 0
  StopLocked = FALSE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES StopReturns
CHECK_DEADLOCK FALSE
