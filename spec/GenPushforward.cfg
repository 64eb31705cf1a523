CONSTANTS Emit = TRUE
 MaxLen = 5
INIT GenInit
NEXT GenNext
INVARIANTS EmitList
CHECK_DEADLOCK FALSE
