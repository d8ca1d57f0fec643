SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Correct Splits Decoded Declared NoBinding
CHECK_DEADLOCK FALSE
