SPECIFICATION Spec
CONSTANTS
  Crashes = FALSE
  GivesUp = FALSE
  Forgets = FALSE
INVARIANT Confined
PROPERTY Ends
CHECK_DEADLOCK FALSE
