SPECIFICATION Spec
CONSTANT NRows = 4
INVARIANTS Partition All Unordered Degenerate Refines
CHECK_DEADLOCK FALSE
