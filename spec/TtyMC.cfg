SPECIFICATION Spec
CONSTANTS
 N = 3
 KeepQuiet = FALSE
 Twice = FALSE
 Half = FALSE
INVARIANTS RawIsRaw Origin SavedToo Pairs Back
CHECK_DEADLOCK FALSE
