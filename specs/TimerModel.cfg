SPECIFICATION Spec
CONSTANTS NP = 3 Steps = 3 MaxD = 3 Dump = FALSE
INVARIANTS Reported
CHECK_DEADLOCK FALSE
