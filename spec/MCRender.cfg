SPECIFICATION Spec
INVARIANTS Inv
PROPERTIES Grows
CHECK_DEADLOCK FALSE
