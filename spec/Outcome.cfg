SPECIFICATION Spec
CONSTANT Scores = {0, 1, 2}
INVARIANTS StatusRight PrintRight NoSilentFailure MonotoneThreshold
PROPERTY Ends
CHECK_DEADLOCK FALSE
