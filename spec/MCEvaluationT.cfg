CONSTANTS Emit = FALSE
 N1 = 3
 N2 = 2
 MaxEvs = 2
 MaxDepth = 2
SPECIFICATION Spec
INVARIANTS EveryPointOnceInOrder Correct SameAnswer Nested
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
