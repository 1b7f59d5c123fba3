SPECIFICATION Spec
CONSTANTS Questions = {1, 2, 3, 4, 5, 6} Most = 2 Steps = 3 Dump = FALSE
INVARIANTS Undisturbed OneAnswer AsAlone
CHECK_DEADLOCK FALSE
