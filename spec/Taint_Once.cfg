SPECIFICATION TSpec
CONSTANTS
 MaxOps = 2
 OwnValue = TRUE
 Named = TRUE
 Once = FALSE
 Sides = TRUE
INVARIANT Right

PROPERTY Decides
CHECK_DEADLOCK FALSE
