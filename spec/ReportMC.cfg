SPECIFICATION Spec
CONSTANT Fixed = TRUE
INVARIANTS TableRight IndexesRight DocsRight
CHECK_DEADLOCK FALSE
