SPECIFICATION Spec
CONSTANTS Len0 = 6 Dump = FALSE
INVARIANTS Counted Stored NeverEmpty
CHECK_DEADLOCK FALSE
