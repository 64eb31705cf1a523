CONSTANTS Emit = FALSE
SPECIFICATION Spec
INVARIANTS Best Evaluated RejectedIff AllSearched Formulas EceAgrees
CHECK_DEADLOCK FALSE
