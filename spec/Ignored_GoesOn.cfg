SPECIFICATION ISpec
CONSTANTS
 MaxResults = 3
 MaxCalls = 3
 GoesOn = FALSE
 AllErrors = TRUE
 OwnPlace = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
