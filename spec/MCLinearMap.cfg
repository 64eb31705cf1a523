CONSTANTS Entries <- EntQ
 Dims <- DimsQ
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ChunkIndependent Columns
PROPERTY Finishes
CHECK_DEADLOCK FALSE
