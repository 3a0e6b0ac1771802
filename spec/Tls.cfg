SPECIFICATION Spec
CONSTANTS MaxNodes = 1
          MaxSet = 2
INVARIANT Exact
CHECK_DEADLOCK FALSE
