SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
