SPECIFICATION Spec
INVARIANTS Restored OwnMain Nested Told
CHECK_DEADLOCK FALSE
