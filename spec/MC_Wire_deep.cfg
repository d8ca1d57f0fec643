SPECIFICATION Spec
CONSTANTS NExpr = 5
 NPlan = 5
 NVar = 6
INVARIANTS Expr Plan VarintOk
CHECK_DEADLOCK FALSE
