CONSTANTS MaxN = 4
 MaxFits = 0
 MaxPosts = 0
 Emit = TRUE
 MaxOps = 10
INIT GenInit
NEXT GenNext
INVARIANTS EmitCase
CHECK_DEADLOCK FALSE
