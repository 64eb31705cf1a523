-------------------------- MODULE TraceLinearMap --------------------------
(* Recorded extractions against LinearMap. The map under observation is     *)
(* fixed per scenario: matrix A (integers), domain structure tin ("none":   *)
(* flat), codomain structure tout. Observations carry 3 decimals.           *)
EXTENDS LinearMap, TraceLib
VARIABLES tin, tout, l, skip
tvars == <<mvars, tin, tout, l, skip>>
TInit == /\ l = 1 /\ skip = FALSE /\ tin = [t |-> "none"] /\ tout = [t |-> "none"]
         /\ A = <<<<0>>>> /\ bs = 0 /\ what = "dense" /\ done = 0 /\ acc = <<>>
K3(v) == ScaleV(1000, v)
DenseV(e) ==
  IF e.err # "" THEN "dense-raised-" \o e.err
  ELSE IF tout.t = "none" THEN
     (IF e.out.sh # <<M, N>> THEN "dense-shape"
      ELSE IF NearV(e.out.v, K3(Flat(A)), 2) THEN "ok" ELSE "dense-matrix")
  ELSE
       IF ~e.out.ok \/ Len(e.out.v) # NumLeaves(tout) THEN "dense-structure"
       ELSE IF \E id \in 1..NumLeaves(tout) : e.out.sh[id] # ShapeOf(tout, id) \o <<N>> THEN "dense-leaf-shape"
       ELSE IF \A id \in 1..NumLeaves(tout) : NearV(e.out.v[id], K3(UnravelRows(tout, N, Flat(A))[id]), 2) THEN "ok" ELSE "dense-matrix"
DiagV(e) == IF e.err # "" THEN "diagonal-raised-" \o e.err
            ELSE IF e.out.sh # <<N>> THEN "diagonal-shape"
            ELSE IF NearV(e.out.v, K3(DiagM(A)), 2) THEN "ok" ELSE "diagonal-entries"
RejectV(e) == IF e.err = "" THEN "invalid-description-accepted" ELSE IF e.want # "any" /\ e.err # e.want THEN "wrong-error" ELSE "ok"
(* diag(d) + u w^T, large *)
BigDiagV(e) == IF e.err # "" THEN "diagonal-raised-" \o e.err
               ELSE IF e.sh # <<Len(e.d)>> THEN "diagonal-shape"
               ELSE IF \A i \in 1..Len(e.d) : Near(e.v[i], 1000 * (e.d[i] + e.u[i] * e.w[i]), 2) THEN "ok" ELSE "diagonal-entries"
BigDenseV(e) == IF e.err # "" THEN "dense-raised-" \o e.err
                ELSE IF e.sh # <<Len(e.d), Len(e.d)>> THEN "dense-shape"
                ELSE IF \A r \in 1..Len(e.rows) : \A j \in 1..Len(e.d) : LET i == e.rows[r] IN
                          Near(e.v[r][j], 1000 * ((IF i = j THEN e.d[i] ELSE 0) + e.u[i] * e.w[j]), 2) THEN "ok" ELSE "dense-matrix"
OpV(e) == CASE e.ev = "BigDiag" -> BigDiagV(e) [] e.ev = "BigDense" -> BigDenseV(e) [] e.ev = "Dense" -> DenseV(e) [] e.ev = "Diag" -> DiagV(e) [] e.ev = "Reject" -> RejectV(e)
            [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<bs, what, done, acc>>
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN A' = e.A /\ tin' = e.tin /\ tout' = e.tout /\ skip' = FALSE
            ELSE /\ UNCHANGED <<A, tin, tout>>
                 /\ LET v == OpV(e) IN Verdict(e, v) /\ skip' = FALSE
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
