SPECIFICATION SSpec
CONSTANTS
 MaxBinds = 3
 OwnValue = TRUE
 AnyName = TRUE
 AllBinds = TRUE
INVARIANT Right
PROPERTY Decides
CHECK_DEADLOCK FALSE
