SPECIFICATION ASpec
CONSTANTS
 Rules = {"r1", "r2"}
 Texts = {"t1", "t2"}
 MaxFindings = 3
 MaxAgain = 1
 ByText = TRUE
 Fresh = TRUE
 Careful = TRUE
 BothKeys = FALSE
INVARIANTS Attached Sparing Reports OnlyWhenWanted Told
PROPERTIES Kept Comes
CHECK_DEADLOCK FALSE
