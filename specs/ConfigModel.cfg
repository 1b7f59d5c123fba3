SPECIFICATION Spec
CONSTANTS Depth = 5 Dump = FALSE
INVARIANTS Precedence
CHECK_DEADLOCK FALSE
