SPECIFICATION Spec
INVARIANTS ModeIsLast InOrder RendIsLast RunsOnce
CHECK_DEADLOCK FALSE
