SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Correct Splits Decoded Declared NoBinding
CHECK_DEADLOCK FALSE
