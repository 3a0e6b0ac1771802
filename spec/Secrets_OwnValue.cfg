SPECIFICATION SSpec
CONSTANTS
 MaxBinds = 3
 OwnValue = FALSE
 AnyName = TRUE
 AllBinds = TRUE
INVARIANT Right

CHECK_DEADLOCK FALSE
