SPECIFICATION Spec
CONSTANTS
  N = 2
  Remembers = FALSE
INVARIANTS Bounded Complete
CHECK_DEADLOCK FALSE
