CONSTANTS Emit = FALSE
 N = 3
 Logits <- LogitSet
 Vars <- VarSet
SPECIFICATION Spec
INVARIANTS Dists ZeroVariance Relabel DiagonalAgrees Shift
CHECK_DEADLOCK FALSE
