CONSTANTS Emit = FALSE
SPECIFICATION Spec
INVARIANTS AnyOrder Agree Flat0 Rescale Mono1 Classes
CHECK_DEADLOCK FALSE
