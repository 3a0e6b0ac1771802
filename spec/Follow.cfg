SPECIFICATION Spec
CONSTANTS
  N = 3
  Remembers = TRUE
INVARIANTS Bounded Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
