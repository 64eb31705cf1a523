CONSTANTS Emit = FALSE
 NS = 4
 NR = 2
SPECIFICATION Spec
INVARIANTS BinsTyped Streamed Calibration RegLaws ClsLaws Published
CHECK_DEADLOCK FALSE
