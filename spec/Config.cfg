SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS SavingKeeps NoNull FlagWins
PROPERTIES OnlyMentioned LastWins
CHECK_DEADLOCK FALSE
