SPECIFICATION GSpec
CONSTANTS
  Script <- S1
  NProcs = 2
  Max0 = 1
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 9
CONSTRAINT Out
CHECK_DEADLOCK FALSE
