CONSTANTS Emit = FALSE
 MaxLen = 4
SPECIFICATION Spec
INVARIANTS Agreement Requested Consistent LinearCoincides
PROPERTIES NeverChanges
CHECK_DEADLOCK FALSE
