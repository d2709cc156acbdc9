SPECIFICATION Spec
CONSTANTS
  Script <- S5
  NProcs = 1
  Max0 = 0
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = FALSE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Resumes
CHECK_DEADLOCK FALSE
