SPECIFICATION Spec
INVARIANT Orders
CHECK_DEADLOCK FALSE
