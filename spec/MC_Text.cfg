SPECIFICATION Spec
INVARIANTS Rounded Small Fixed Table
CHECK_DEADLOCK FALSE
