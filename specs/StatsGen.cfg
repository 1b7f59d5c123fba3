SPECIFICATION Spec
CONSTANTS Len0 = 4 Dump = TRUE
INVARIANTS Counted Stored Dumped
CHECK_DEADLOCK FALSE
