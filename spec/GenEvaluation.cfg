CONSTANTS Emit = TRUE
 N1 = 7
 N2 = 4
 MaxEvs = 4
 MaxDepth = 3
INIT InitG
NEXT GenNext
INVARIANTS EmitLog
CHECK_DEADLOCK FALSE
