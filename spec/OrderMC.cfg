SPECIFICATION Spec
CONSTANT Keys <- KeyNew
INVARIANTS SevOrdered Permutation ScheduleFree
CHECK_DEADLOCK FALSE
