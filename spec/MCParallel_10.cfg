SPECIFICATION Spec
CONSTANTS
  Script <- S8
  NProcs = 2
  Max0 = 1
  SelfAt = 2
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
