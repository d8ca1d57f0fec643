SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Symmetry Circle Arcs ArcTan Hyper Powers Logs
CHECK_DEADLOCK FALSE
