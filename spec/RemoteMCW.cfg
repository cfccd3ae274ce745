SPECIFICATION Fair
CONSTANTS
  MaxMsgs = 1
  MaxReads = 0
  Writers = {1, 2}
  MaxWrites = 1
  Closers = {1}
  EofFirst = FALSE
  NoWake = FALSE
  NoStop = FALSE
  NoStopW = FALSE
  Panic = FALSE
INVARIANTS Right
PROPERTIES WriteReturns Leaves
CHECK_DEADLOCK FALSE
