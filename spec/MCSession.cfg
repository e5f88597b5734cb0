SPECIFICATION Spec
INVARIANTS Isolated
PROPERTIES Constant
CHECK_DEADLOCK FALSE
