SPECIFICATION ISpec
CONSTANTS
 MaxResults = 3
 MaxCalls = 3
 GoesOn = TRUE
 AllErrors = TRUE
 OwnPlace = TRUE
INVARIANT Right
PROPERTY Decides
CHECK_DEADLOCK FALSE
