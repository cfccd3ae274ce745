SPECIFICATION Fair
CONSTANTS
  MaxMsgs = 2
  MaxReads = 3
  Writers = {}
  MaxWrites = 1
  Closers = {1}
  EofFirst = FALSE
  NoWake = FALSE
  NoStop = FALSE
  NoStopW = FALSE
  Panic = FALSE
INVARIANTS Right
PROPERTIES ReadReturns Leaves
CHECK_DEADLOCK FALSE
