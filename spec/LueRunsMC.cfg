SPECIFICATION Spec
INVARIANTS Holds Ordered FilesHold Counted
CHECK_DEADLOCK FALSE
