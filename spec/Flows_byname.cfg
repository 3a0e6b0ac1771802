SPECIFICATION FSpec
CONSTANTS
 Names = {"a", "b"}
 MaxSteps = 5
 MaxDepth = 2
 Fault = "byname"
INVARIANTS Exact Local
CHECK_DEADLOCK FALSE
