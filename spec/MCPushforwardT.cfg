CONSTANTS Emit = FALSE
 MaxLen = 5
SPECIFICATION Spec
INVARIANTS Agreement Requested Consistent LinearCoincides
PROPERTIES NeverChanges
CHECK_DEADLOCK FALSE
