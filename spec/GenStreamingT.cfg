CONSTANTS NMax = 10
 Emit = TRUE
INIT Init
NEXT Batch
CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE
