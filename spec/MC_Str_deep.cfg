SPECIFICATION Spec
CONSTANT NStr = 5
INVARIANTS Cuts Slices Trims Letters Concat
CHECK_DEADLOCK FALSE
