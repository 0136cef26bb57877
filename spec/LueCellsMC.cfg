SPECIFICATION Spec
INVARIANTS Refused Apart Shaped Known1
CHECK_DEADLOCK FALSE
