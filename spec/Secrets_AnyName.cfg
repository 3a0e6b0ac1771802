SPECIFICATION SSpec
CONSTANTS
 MaxBinds = 3
 OwnValue = TRUE
 AnyName = FALSE
 AllBinds = TRUE
INVARIANT Right

CHECK_DEADLOCK FALSE
