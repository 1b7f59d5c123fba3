SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxDt = 2 MaxSteps = 4 Dump = TRUE
INVARIANTS Dumped
CHECK_DEADLOCK FALSE
