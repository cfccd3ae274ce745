SPECIFICATION Fair
CONSTANTS
  Readers = {1, 2}
  MaxReads = 2
  MaxGiven = 3
  Closers = {1, 2}
  NoStop = FALSE
  Share = FALSE
INVARIANTS Right
PROPERTIES Released CloseReturns Leaves
CHECK_DEADLOCK FALSE
