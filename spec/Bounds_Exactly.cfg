SPECIFICATION BSpec
CONSTANTS
 MaxCap = 3
 MaxCuts = 2
 TwoSizes = TRUE
 Relative = TRUE
 Exactly = FALSE
 ByValue = TRUE
 Both = TRUE
INVARIANTS Exact Caught Follows TrueGuard Spared
CHECK_DEADLOCK FALSE
