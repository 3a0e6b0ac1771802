SPECIFICATION Spec
INVARIANT LookupExact
INVARIANT AliasFree
INVARIANT OrderFree
PROPERTY Found
CHECK_DEADLOCK FALSE
