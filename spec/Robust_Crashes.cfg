SPECIFICATION Spec
CONSTANTS
  Crashes = TRUE
  GivesUp = FALSE
  Forgets = FALSE
INVARIANT Confined
PROPERTY Ends
CHECK_DEADLOCK FALSE
