CONSTANTS LeafShapes <- ShpT
  Emit = TRUE
INIT Init
NEXT Next
CONSTRAINT EmitTree
CHECK_DEADLOCK FALSE
