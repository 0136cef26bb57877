SPECIFICATION Spec
INVARIANTS Apart Named Mapped
CHECK_DEADLOCK FALSE
