CONSTANTS Emit = TRUE
INIT GenInit
NEXT GenNext
CONSTRAINT EmitReq
CHECK_DEADLOCK FALSE
