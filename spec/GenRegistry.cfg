CONSTANTS Emit = TRUE
 MaxOps = 5
 FullSubsets = TRUE
INIT Init
NEXT GenNext
INVARIANTS EmitOps
CHECK_DEADLOCK FALSE
