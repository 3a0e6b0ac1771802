SPECIFICATION ConformSpec
CONSTANT Judge <- JudgeImpl
INVARIANT ConformDone
CHECK_DEADLOCK FALSE
