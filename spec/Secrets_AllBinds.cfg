SPECIFICATION SSpec
CONSTANTS
 MaxBinds = 3
 OwnValue = TRUE
 AnyName = TRUE
 AllBinds = FALSE
INVARIANT Right

CHECK_DEADLOCK FALSE
