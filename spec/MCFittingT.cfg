CONSTANTS MaxN = 3
 MaxFits = 2
 MaxPosts = 2
 Emit = FALSE
 MaxOps = 0
SPECIFICATION Spec
INVARIANTS Complete FitIsComposition PrecInverse Symmetric
PROPERTIES FitsStay PostsStay
CHECK_DEADLOCK FALSE
