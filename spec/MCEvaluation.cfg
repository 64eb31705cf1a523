CONSTANTS Emit = FALSE
 N1 = 2
 N2 = 1
 MaxEvs = 2
 MaxDepth = 2
SPECIFICATION Spec
INVARIANTS EveryPointOnceInOrder Correct SameAnswer Nested
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
