SPECIFICATION Spec
INVARIANTS Fits
CHECK_DEADLOCK FALSE
