SPECIFICATION Spec
CONSTANTS
  Script <- S4
  NProcs = 4
  Max0 = 2
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 14
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
