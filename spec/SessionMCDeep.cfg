SPECIFICATION Fair
CONSTANTS
  MaxKeys = 2
  MaxCalls = 2
  Closers = 2
  Ends = TRUE
  NoKick = FALSE
  NoStop = FALSE
  Eager = FALSE
  NoWait = FALSE
INVARIANTS Right Idle Secret
PROPERTIES Answers Released CloseReturns
CHECK_DEADLOCK FALSE
