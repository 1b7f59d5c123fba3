SPECIFICATION Spec
CONSTANTS Questions = {1, 2, 3, 4, 5, 6} Most = 2 Steps = 3 Dump = TRUE
INVARIANTS Undisturbed Dumped
CHECK_DEADLOCK FALSE
