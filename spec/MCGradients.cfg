CONSTANTS Emit = FALSE
 TMax = 40
SPECIFICATION Spec
INVARIANTS SlopeOk SlopeS SlopeL SlopeG CovSlopes Inverts Shrinks Optimal
CHECK_DEADLOCK FALSE
