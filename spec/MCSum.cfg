SPECIFICATION Spec
INVARIANT Sums
CHECK_DEADLOCK FALSE
