SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "vendor"}
          Depth = 2
INVARIANTS Exact Sound Monotone
CHECK_DEADLOCK FALSE
