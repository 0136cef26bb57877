SPECIFICATION Spec
INVARIANTS Refused Shared Held_ NoRelease Keeps
CHECK_DEADLOCK FALSE
