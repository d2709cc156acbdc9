SPECIFICATION GSpec
CONSTANTS
  Script <- S4
  NProcs = 2
  Max0 = 1
  SelfAt = 0
  StopLocked = TRUE
  Detach = FALSE
  MaxNotify = TRUE
  Total = 14
CONSTRAINT Out
CHECK_DEADLOCK FALSE
