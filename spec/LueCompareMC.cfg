SPECIFICATION Spec
INVARIANTS ByBlock Itself
CHECK_DEADLOCK FALSE
