CONSTANT Few = FALSE
SPECIFICATION SSpec
INVARIANTS Commutes Undone Somewhere
CHECK_DEADLOCK FALSE
