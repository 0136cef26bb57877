SPECIFICATION Spec
INVARIANTS Stored Refused Back Others
CHECK_DEADLOCK FALSE
