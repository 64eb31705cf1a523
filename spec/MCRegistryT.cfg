CONSTANTS Emit = FALSE
 MaxOps = 3
 FullSubsets = FALSE
SPECIFICATION Spec
INVARIANTS Complete OnlyAccepted Supplied Untouched NoInvention
PROPERTIES OneName
CHECK_DEADLOCK FALSE
