SPECIFICATION ASpec
CONSTANTS
 Rules = {"r1", "r2"}
 Texts = {"t1", "t2", "t3"}
 MaxFindings = 4
 MaxAgain = 2
 ByText = TRUE
 Fresh = TRUE
 Careful = TRUE
 BothKeys = TRUE
INVARIANTS Attached Sparing Reports OnlyWhenWanted Told
PROPERTIES Kept Comes
CHECK_DEADLOCK FALSE
