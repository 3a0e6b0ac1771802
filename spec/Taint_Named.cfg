SPECIFICATION TSpec
CONSTANTS
 MaxOps = 2
 OwnValue = TRUE
 Named = FALSE
 Once = TRUE
 Sides = TRUE
INVARIANT Right


CHECK_DEADLOCK FALSE
