SPECIFICATION Spec
INVARIANTS Monotone Unrelated
CHECK_DEADLOCK FALSE
