CONSTANTS Params = {1, 2}
 Inputs = {0, 1}
 NData = 1
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS OrderIndependent Symmetric LinearAgrees NoLossHasNoModelCurvature Convex SoftmaxNull
CHECK_DEADLOCK FALSE
