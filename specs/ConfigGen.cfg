SPECIFICATION Spec
CONSTANTS Depth = 3 Dump = TRUE
INVARIANTS Precedence Dumped
CHECK_DEADLOCK FALSE
