SPECIFICATION Spec
CONSTANTS NP = 3 Steps = 1 MaxD = 3 Dump = TRUE
INVARIANTS Reported Dumped
CHECK_DEADLOCK FALSE
