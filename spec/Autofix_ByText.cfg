SPECIFICATION ASpec
CONSTANTS
 Rules = {"r1", "r2"}
 Texts = {"t1", "t2"}
 MaxFindings = 3
 MaxAgain = 1
 ByText = FALSE
 Fresh = TRUE
 Careful = TRUE
 BothKeys = TRUE
INVARIANTS Attached Sparing Reports OnlyWhenWanted Told
PROPERTIES Kept Comes
CHECK_DEADLOCK FALSE
