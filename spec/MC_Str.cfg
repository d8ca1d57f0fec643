SPECIFICATION Spec
CONSTANT NStr = 3
INVARIANTS Cuts Slices Trims Letters Concat
CHECK_DEADLOCK FALSE
