CONSTANTS MaxReq = 5
 Emit = FALSE
SPECIFICATION Spec
INVARIANTS IsInverse Positive LowRankAgrees Symmetric
CHECK_DEADLOCK FALSE
