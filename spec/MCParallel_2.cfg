SPECIFICATION Spec
CONSTANTS
  Script <- S2
  NProcs = 3
  Max0 = 1
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
