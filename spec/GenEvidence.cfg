CONSTANTS Emit = TRUE
INIT GenInit
NEXT Next
INVARIANTS EmitAll
CHECK_DEADLOCK FALSE
