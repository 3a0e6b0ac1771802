SPECIFICATION BSpec
CONSTANTS
 MaxCap = 4
 MaxCuts = 2
 TwoSizes = TRUE
 Relative = TRUE
 Exactly = TRUE
 ByValue = TRUE
 Both = TRUE
INVARIANTS Exact Caught Follows TrueGuard Spared
CHECK_DEADLOCK FALSE
