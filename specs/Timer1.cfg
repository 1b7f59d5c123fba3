SPECIFICATION Spec
CONSTANTS NP = 1 Steps = 3 MaxD = 3 Dump = TRUE
INVARIANTS Reported Dumped
CHECK_DEADLOCK FALSE
