CONSTANTS Emit = TRUE
 N = 2
 Logits <- LogitSet
 Vars <- VarSet
INIT Init
NEXT Next
INVARIANTS EmitAll
CHECK_DEADLOCK FALSE
