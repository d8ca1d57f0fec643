SPECIFICATION Spec
INVARIANTS Relations Meaning Transitive Extremes
CHECK_DEADLOCK FALSE
