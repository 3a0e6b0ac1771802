SPECIFICATION ISpec
CONSTANTS
 MaxResults = 3
 MaxCalls = 3
 GoesOn = TRUE
 AllErrors = FALSE
 OwnPlace = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
