SPECIFICATION Spec
INVARIANTS Kleene NoBool Predicates Strictness Typing
CHECK_DEADLOCK FALSE
