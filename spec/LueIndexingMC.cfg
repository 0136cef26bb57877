SPECIFICATION Spec
INVARIANTS Cells_ Refused Read Others Order
CHECK_DEADLOCK FALSE
