SPECIFICATION Spec
CONSTANTS
  Crashes = FALSE
  GivesUp = FALSE
  Forgets = TRUE
INVARIANT Confined
PROPERTY Ends
CHECK_DEADLOCK FALSE
