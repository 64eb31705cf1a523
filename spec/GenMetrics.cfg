CONSTANTS Emit = TRUE
 NS = 1
 NR = 1
INIT Init
NEXT Next
INVARIANTS EmitAll
CHECK_DEADLOCK FALSE
