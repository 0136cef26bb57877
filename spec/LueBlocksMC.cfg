SPECIFICATION Spec
INVARIANTS Covered Once Positive Fewest
CHECK_DEADLOCK FALSE
