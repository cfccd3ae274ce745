SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Leads All LeftOnly Spaces Segmented
