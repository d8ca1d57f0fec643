SPECIFICATION Spec
CONSTANTS
  Who = {1, 2, 3, 4}
  Aspects = {"alloc", "owner"}
INVARIANTS AlwaysRight Unaffected Nothing
CHECK_DEADLOCK FALSE
