SPECIFICATION Spec
CONSTANTS Confs = 14 Variants = 3 Solvers = 7 MaxUses = 2 Steps = 1 Dump = TRUE
INVARIANTS Own Dumped
CHECK_DEADLOCK FALSE
