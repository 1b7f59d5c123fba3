SPECIFICATION Spec
CONSTANTS Confs = 3 Variants = 1 Solvers = 2 MaxUses = 3 Steps = 2 Dump = FALSE
INVARIANTS Own
PROPERTY Finishes
CHECK_DEADLOCK FALSE
