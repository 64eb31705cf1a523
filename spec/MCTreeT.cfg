CONSTANTS LeafShapes <- ShpT
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Bijective ShapesKept BasisIsUnit EyeRowsAreBasis ArithmeticIsFlat
CHECK_DEADLOCK FALSE
