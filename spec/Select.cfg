SPECIFICATION Spec
INVARIANTS FilterExact ExclusionWins Independent
CHECK_DEADLOCK FALSE
