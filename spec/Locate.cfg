SPECIFICATION Spec
CONSTANT MaxLines = 4
INVARIANTS SnippetRight InFile Encloses
PROPERTY Ends
CHECK_DEADLOCK FALSE
