-------------------------- MODULE TraceGradients --------------------------
(* Recorded derivatives against Gradients.                                  *)
EXTENDS Gradients, TraceLib
VARIABLES l, w, loss
TInit == l = 1 /\ w = <<>> /\ loss = 0
P == Len(w.th)
MaxAbs(v) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(x)), 0, v)
MaxAbsM(M) == MaxAbs(Flat(M))
Is(e, v) == IF e.err # "" THEN e.what \o "-raised-" \o e.err ELSE v
\* covariance and its derivatives, units of 1/W
CovV(e) == LET want == FormM(w, e.wrt, e.a, W, IdM(P)) IN
  IF Len(e.out) # P THEN "covariance-shape" ELSE IF ~SaneM(e.out, 900000000) THEN "covariance-derivative-undefined"
  ELSE IF NearM(e.out, want, 100 + MaxAbsM(want) \div 20000) THEN "ok" ELSE "covariance-derivative-in-" \o e.wrt
(* S S^T = covariance and dS S^T + S dS^T = d covariance, units of 1/U *)
FProd(A, B) == TLCEval([i \in 1..P |-> TLCEval([j \in 1..P |-> SumSeq([k \in 1..P |-> FMul(A[i][k], B[j][k], U)])])])
ScaleDV(e) == IF Len(e.S) # P \/ Len(e.D) # P THEN "scale-shape"
  ELSE IF ~SaneM(e.S, 150000) \/ ~SaneM(e.D, 150000) THEN "scale-derivative-undefined"
  ELSE LET t == P * (3 + (MaxAbsM(e.S) + MaxAbsM(e.D)) \div U)  H == FProd(e.D, e.S) IN
       IF ~NearM(FProd(e.S, e.S), FormM(w, "val", e.a, U, IdM(P)), 10 + t) THEN "scale-is-not-a-root"
       ELSE IF ~NearM(AddM(H, Transp(H)), FormM(w, e.wrt, e.a, U, IdM(P)), 20 + 2 * t) THEN "scale-derivative-in-" \o e.wrt
       ELSE "ok"
Ev(e) == LET want == IF e.wrt = "val" THEN Evid(w, e.a, loss, w.th) ELSE DEvid(w, e.wrt, e.a, loss, w.th)
         IN  IF Near(e.v, want, 30 + 3 * P + 2 * Len(w.xs) * Len(w.mod) + Abs(want) \div 5000) THEN "ok" ELSE "evidence-derivative-in-" \o e.wrt
(* predictions: J F J^T, its diagonal, and the deviation's 2 std dstd = dvar *)
JacX(x) == Jac(w.mod, w.th, x)
PredV(e) == LET J == JacX(e.x)  M == FormM(w, e.wrt, e.a, U, J)  n == Len(J)
                tol == 20 + MaxSeq([i \in 1..n |-> Dot(J[i], J[i])]) + MaxAbsM(M) \div 5000
            IN IF e.what = "pred_mean" THEN (IF \A i \in 1..Len(e.out) : e.out[i] = 0 THEN "ok" ELSE "mean-depends-on-" \o e.wrt)
               ELSE IF e.what = "pred_var" THEN (IF NearV(e.out, DiagM(M), tol) THEN "ok" ELSE "variance-derivative-in-" \o e.wrt)
               ELSE IF e.what = "pred_cov" THEN (IF NearV(e.out, Flat(M), tol) THEN "ok" ELSE "prediction-covariance-derivative-in-" \o e.wrt)
               ELSE IF ~SaneV(e.out, 300000) \/ ~SaneV(e.std, 300000) THEN "deviation-derivative-undefined"
               ELSE IF \A i \in 1..n : Near(2 * FMul(e.std[i], e.out[i], U), M[i][i], tol + (Abs(e.std[i]) + Abs(e.out[i])) \div U) THEN "ok"
               ELSE "deviation-derivative-in-" \o e.wrt
(* any recorded quantity: the derivative in ln t against the differences of its values *)
DiffV(e) == IF Len(e.d) # Len(e.v[1]) THEN e.what \o "-derivative-shape"
  ELSE IF \E i \in 1..Len(e.d) : Abs(e.d[i]) > 100000000 THEN e.what \o "-derivative-undefined"
  ELSE IF \A i \in 1..Len(e.d) : LET v == [k \in 1..4 |-> e.v[k][i]] IN
            Near(3 * e.d[i], Five(v), 3 * (50 + e.tol + MaxAbs(v) \div 2000 + Abs(e.d[i]) \div 200)) THEN "ok"
  ELSE e.what \o "-derivative-is-not-its-slope"
EvV(e) == CASE e.ev = "Cov" -> Is(e, CovV(e)) [] e.ev = "Scale" -> Is(e, ScaleDV(e)) [] e.ev = "Evid" -> Is(e, Ev(e))
            [] e.ev = "Pred" -> Is(e, PredV(e)) [] e.ev = "Diff" -> Is(e, DiffV(e)) [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin"
            THEN w' = e /\ loss' = SumLoss(e.L, e.mod, e.th, e.xs, e.ys)
            ELSE UNCHANGED <<w, loss>> /\ Verdict(e, EvV(e))
TSpec == TInit /\ [][TNext]_<<l, w, loss>>
===========================================================================
