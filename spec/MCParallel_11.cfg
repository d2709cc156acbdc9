SPECIFICATION Spec
CONSTANTS
  Script <- S9
  NProcs = 3
  Max0 = 1
  SelfAt = 3
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 14
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
