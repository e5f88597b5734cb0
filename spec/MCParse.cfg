SPECIFICATION Spec
INVARIANTS Inv Stuck Accepted Covered Closers
PROPERTIES Ends Moves
CHECK_DEADLOCK FALSE
