SPECIFICATION Spec
CONSTANTS NExpr = 4
 NPlan = 4
 NVar = 5
INVARIANTS Expr Plan VarintOk
CHECK_DEADLOCK FALSE
