SPECIFICATION Spec
INVARIANTS Cells Refused Exact RowMajor Inverse Kept
CHECK_DEADLOCK FALSE
