CONSTANTS NMax = 9
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS EqualsOnePass PrefixExact
PROPERTY EveryPassEnds
CHECK_DEADLOCK FALSE
