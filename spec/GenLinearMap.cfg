CONSTANTS Entries <- EntG
 Dims <- DimsG
 Emit = TRUE
INIT Init
NEXT ExtractChunk
CONSTRAINT EmitJob
CHECK_DEADLOCK FALSE
