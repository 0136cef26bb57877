SPECIFICATION Spec
INVARIANTS Refused Sound Complete Steady Apart Found1
CHECK_DEADLOCK FALSE
