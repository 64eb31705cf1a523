CONSTANTS MaxLen = 4
 MaxDepth = 1
 Emit = TRUE
INIT GInit
NEXT GNext
CONSTRAINT EmitHist
CHECK_DEADLOCK FALSE
