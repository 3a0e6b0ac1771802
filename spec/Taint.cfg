SPECIFICATION TSpec
CONSTANTS
 MaxOps = 2
 OwnValue = TRUE
 Named = TRUE
 Once = TRUE
 Sides = TRUE
INVARIANT Right
INVARIANT Invariance
PROPERTY Decides
CHECK_DEADLOCK FALSE
