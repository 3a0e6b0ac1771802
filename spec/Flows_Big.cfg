SPECIFICATION FSpec
CONSTANTS
 Names = {"a", "b"}
 MaxSteps = 6
 MaxDepth = 2
 Fault = ""
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE
