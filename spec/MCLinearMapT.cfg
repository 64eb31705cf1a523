CONSTANTS Entries = {0, 2}
 Dims <- DimsT
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS ChunkIndependent Columns
PROPERTY Finishes
CHECK_DEADLOCK FALSE
