SPECIFICATION Spec
CONSTANTS N = 2 MaxStep = 3 CkEvery = 2 Local = FALSE Dump = TRUE
INVARIANTS SameStep NobodyOn Checkpoint OnlyIfFile Removed FirstSeen Dumped
PROPERTY Ends
CHECK_DEADLOCK FALSE
