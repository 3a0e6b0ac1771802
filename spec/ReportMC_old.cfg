SPECIFICATION Spec
CONSTANT Fixed = FALSE
INVARIANTS TableRight IndexesRight DocsRight
CHECK_DEADLOCK FALSE
