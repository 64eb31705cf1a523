CONSTANTS NMax = 4
          Vals = {0, 1, 2, 2000000, 2000001, 2000002, 2000003}
          Pats = {0, 1, 2, 3}
          Maxs = {0, 1, 3}
          Emit = TRUE
INIT Init
NEXT Next
INVARIANT EmitBehaviour
CHECK_DEADLOCK FALSE
