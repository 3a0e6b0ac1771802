SPECIFICATION Spec
CONSTANTS
  Pkgs = {1, 2, 3}
  NVers = 3
  Sels = {1, 2}
  MaxOps = 4
  ClearTable = TRUE
  ClearErrors = TRUE
  ByName = TRUE
INVARIANTS Isolated ErrorsOfThisRun
CHECK_DEADLOCK FALSE
