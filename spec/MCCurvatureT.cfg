CONSTANTS Params <- PT
 Inputs = {1, 2}
 NData = 2
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS OrderIndependent Symmetric LinearAgrees NoLossHasNoModelCurvature Convex SoftmaxNull
CHECK_DEADLOCK FALSE
