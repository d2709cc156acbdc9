SPECIFICATION Spec
CONSTANTS
  Script <- S4
  NProcs = 2
  Max0 = 1
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 14
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
