SPECIFICATION Spec
CONSTANT NRows = 3
INVARIANTS Partition All Unordered Degenerate Refines
CHECK_DEADLOCK FALSE
