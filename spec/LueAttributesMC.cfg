SPECIFICATION Spec
INVARIANTS Refused Reads Present Others
CHECK_DEADLOCK FALSE
