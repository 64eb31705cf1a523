CONSTANTS LeafShapes <- Shp
  Emit = TRUE
INIT Init
NEXT Next
CONSTRAINT EmitTree
CHECK_DEADLOCK FALSE
