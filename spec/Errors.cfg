SPECIFICATION Spec
CONSTANT MaxErrs = 2
INVARIANTS NoneInvented Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
