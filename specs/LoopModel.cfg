SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxDt = 2 MaxSteps = 5 Dump = FALSE
INVARIANTS Counter NeverLate Maximal Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
