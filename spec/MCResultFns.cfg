CONSTANTS MaxOps = 2
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS OnceInOrder
PROPERTIES Frame FrameAux NothingElse RejectedUnchanged
CHECK_DEADLOCK FALSE
