SPECIFICATION NSpec
CONSTANTS
 Functions = {1, 2, 3}
 MaxCalls = 4
 Fault = ""
INVARIANTS Exact Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
