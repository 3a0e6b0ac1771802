SPECIFICATION Spec
CONSTANTS
  Crashes = FALSE
  GivesUp = TRUE
  Forgets = FALSE
INVARIANT Confined
PROPERTY Ends
CHECK_DEADLOCK FALSE
