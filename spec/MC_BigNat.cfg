CONSTANT Big = {65535, 65536, 70000, 16777215, 16777216, 123456789}
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
