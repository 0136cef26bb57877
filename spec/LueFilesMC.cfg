SPECIFICATION Spec
INVARIANTS Refused Changes Exclusive Memory NewIsEmpty OpenIsThere
CHECK_DEADLOCK FALSE
