SPECIFICATION Fair
CONSTANTS
  MaxMsgs = 2
  MaxReads = 2
  Writers = {1}
  MaxWrites = 1
  Closers = {1}
  EofFirst = FALSE
  NoWake = FALSE
  NoStop = FALSE
  NoStopW = FALSE
  Panic = FALSE
INVARIANTS Right
PROPERTIES ReadReturns WriteReturns Leaves
CHECK_DEADLOCK FALSE
