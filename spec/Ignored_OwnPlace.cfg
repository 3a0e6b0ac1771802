SPECIFICATION ISpec
CONSTANTS
 MaxResults = 3
 MaxCalls = 3
 GoesOn = TRUE
 AllErrors = TRUE
 OwnPlace = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
