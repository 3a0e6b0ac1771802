SPECIFICATION NSpec
CONSTANTS
 Functions = {1, 2}
 MaxCalls = 3
 Fault = "random"
INVARIANTS Exact Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
