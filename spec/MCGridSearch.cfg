CONSTANTS NMax = 5
          Vals = {0, 1, 2, 2000001, 2000002, 2000003}
          Pats = {0, 1, 2, 3}
          Maxs = {0, 1, 2, 4, 9}
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS BestReturned WithinLimits StopsOnlyForAReason NeverPastPatience FailureIsInfinite OtherErrorsPropagate
PROPERTY Terminates
CHECK_DEADLOCK FALSE
