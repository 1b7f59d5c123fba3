SPECIFICATION Spec
CONSTANTS Intervals = {1, 2, 100} MaxRuns = 2 MaxSteps = 3 Starts = {99, 0, 4} Dump = TRUE
INVARIANTS Dumped
CHECK_DEADLOCK FALSE
