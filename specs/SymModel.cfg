CONSTANT Few = TRUE
SPECIFICATION SSpec
INVARIANTS Commutes Undone Somewhere
CHECK_DEADLOCK FALSE
