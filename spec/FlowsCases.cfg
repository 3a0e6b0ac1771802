CONSTANTS
 Names = {"a", "b"}
 MaxSteps = 1
 MaxDepth = 2
 Fault = ""
SPECIFICATION FSpec
CHECK_DEADLOCK FALSE
