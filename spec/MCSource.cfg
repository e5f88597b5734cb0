SPECIFICATION Spec
INVARIANTS Whole Loaded
CHECK_DEADLOCK FALSE
