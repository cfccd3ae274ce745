SPECIFICATION Spec
INVARIANTS Whole Kept Agree
CHECK_DEADLOCK FALSE
