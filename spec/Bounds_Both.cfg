SPECIFICATION BSpec
CONSTANTS
 MaxCap = 3
 MaxCuts = 2
 TwoSizes = TRUE
 Relative = TRUE
 Exactly = TRUE
 ByValue = TRUE
 Both = FALSE
INVARIANTS Exact Caught Follows TrueGuard Spared
CHECK_DEADLOCK FALSE
