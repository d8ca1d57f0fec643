SPECIFICATION Spec
CONSTANT NText = 5
INVARIANTS TextInt TextFloat Ints1 Floats1
CHECK_DEADLOCK FALSE
