SPECIFICATION Spec
INVARIANTS Refused Kept Monotone Typed Reached
CHECK_DEADLOCK FALSE
