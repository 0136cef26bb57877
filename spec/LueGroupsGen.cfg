SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
