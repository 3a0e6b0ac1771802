SPECIFICATION Spec
INVARIANTS Exact Only
CHECK_DEADLOCK FALSE
