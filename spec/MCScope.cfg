SPECIFICATION Spec
INVARIANTS FirstWins
PROPERTIES Kept
CHECK_DEADLOCK FALSE
