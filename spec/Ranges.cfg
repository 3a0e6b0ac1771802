SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Hi = 5
  Consts = {0, 2, 3, 5}
  Ops = {"<", "<=", ">", ">=", "==", "!="}
  Depth = 2
INVARIANTS TypeOK Sound SoundSet Tight
CHECK_DEADLOCK FALSE
