CONSTANTS Emit = TRUE
 TMax = 40
INIT GenInit
NEXT Next
INVARIANTS EmitAll
CHECK_DEADLOCK FALSE
