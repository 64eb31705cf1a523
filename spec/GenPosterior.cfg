CONSTANTS MaxReq = 6
 Emit = TRUE
INIT GenInit
NEXT Next
CONSTRAINT EmitSession
CHECK_DEADLOCK FALSE
