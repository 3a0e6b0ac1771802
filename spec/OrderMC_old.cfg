SPECIFICATION Spec
CONSTANT Keys <- KeyOld
INVARIANTS SevOrdered Permutation ScheduleFree
CHECK_DEADLOCK FALSE
