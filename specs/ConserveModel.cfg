SPECIFICATION Spec
INVARIANTS Conserves StateSolenoidal NotTrivial
CHECK_DEADLOCK FALSE
