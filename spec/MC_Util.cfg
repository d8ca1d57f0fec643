SPECIFICATION Spec
CONSTANT Aspects = {}
INVARIANTS Equal Tuples Hex Digits
CHECK_DEADLOCK FALSE
