SPECIFICATION Spec
CONSTANTS NP = 2 Steps = 2 MaxD = 3 Dump = TRUE
INVARIANTS Reported Dumped
CHECK_DEADLOCK FALSE
