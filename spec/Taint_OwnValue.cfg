SPECIFICATION TSpec
CONSTANTS
 MaxOps = 2
 OwnValue = FALSE
 Named = TRUE
 Once = TRUE
 Sides = TRUE
INVARIANT Right


CHECK_DEADLOCK FALSE
