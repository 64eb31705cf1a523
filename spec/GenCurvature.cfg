CONSTANTS Params = {1, 2}
 Inputs = {0, 1, 2}
 NData = 1
 Emit = TRUE
INIT Init
NEXT Next
CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
