SPECIFICATION Spec
CONSTANTS
  Script <- S3
  NProcs = 2
  Max0 = 0
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
INVARIANTS Bound InOrder NoLoss Contig NoStale OneWorker
PROPERTIES Refines NothingRunsAfterStop StopReturns Released AllDone Resumes
CHECK_DEADLOCK FALSE
