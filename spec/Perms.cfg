SPECIFICATION Spec
CONSTANT Width = 6
INVARIANTS BitwiseExact NumberedIsWeaker Monotone
CHECK_DEADLOCK FALSE
