SPECIFICATION TSpec
CONSTANTS
 MaxOps = 2
 OwnValue = TRUE
 Named = TRUE
 Once = TRUE
 Sides = FALSE
INVARIANT Right


CHECK_DEADLOCK FALSE
