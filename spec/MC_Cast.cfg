SPECIFICATION Spec
CONSTANT NText = 4
INVARIANTS TextInt TextFloat Ints1 Floats1
CHECK_DEADLOCK FALSE
