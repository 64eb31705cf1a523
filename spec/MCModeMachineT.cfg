CONSTANTS MaxLen = 6
 MaxDepth = 2
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS Restored RestoredAfter Representable
PROPERTIES CallFrame FoundAgain
CHECK_DEADLOCK FALSE
