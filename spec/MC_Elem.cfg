SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Symmetry Circle Arcs ArcTan Hyper Powers Logs
CHECK_DEADLOCK FALSE
