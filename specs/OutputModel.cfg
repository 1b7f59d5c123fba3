SPECIFICATION Spec
CONSTANTS Intervals = {1, 2, 3, 100} MaxRuns = 2 MaxSteps = 3 Starts = {99, 0, 4} Dump = FALSE
INVARIANTS Results Latest
CHECK_DEADLOCK FALSE
