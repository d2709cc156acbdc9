SPECIFICATION Spec
CONSTANTS
  Script <- S7
  NProcs = 1
  Max0 = 1
  SelfAt = 1
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
