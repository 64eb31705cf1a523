CONSTANTS Emit = FALSE
 N = 3
 Logits <- LogitBig
 Vars <- VarBig
SPECIFICATION Spec
INVARIANTS Dists ZeroVariance Relabel DiagonalAgrees Shift
CHECK_DEADLOCK FALSE
