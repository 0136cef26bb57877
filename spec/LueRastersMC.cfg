SPECIFICATION Spec
INVARIANTS Refused Apart OneBand InWindow ReadsBack Unmodified Copied Complete
CHECK_DEADLOCK FALSE
