SPECIFICATION Spec
INVARIANTS PoolHolds RangeHolds ArrayHolds WeakHolds BenchmarkHolds Refused
CHECK_DEADLOCK FALSE
