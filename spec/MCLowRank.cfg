CONSTANTS Emit = FALSE
SPECIFICATION Spec
INVARIANTS Orthogonal Tridiagonal Bounded Exhaustion Reproduces
CHECK_DEADLOCK FALSE
