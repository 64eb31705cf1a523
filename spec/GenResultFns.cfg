CONSTANTS MaxOps = 2
 Emit = TRUE
INIT GenInit
NEXT GenNext
INVARIANTS EmitOps
CHECK_DEADLOCK FALSE
