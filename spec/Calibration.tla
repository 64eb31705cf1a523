--------------------------- MODULE Calibration ---------------------------
(* Calibration of the prior precision: which combinations are supported,    *)
(* and the objectives on the calibration data as functions of the candidate *)
(* precision. Precisions are integers in units of 10^-6 (t6); objectives,   *)
(* deviations and residuals in units of 1/U; confidences in 10^-6.          *)
EXTENDS Evidence, Metrics
M6 == 1000000
Objectives == {"nll", "chi_squared", "marginal_log_likelihood", "ece"}
Special == {"laplace_bridge", "mean_field_0", "mean_field_1", "mean_field_2"}
PredictiveKinds == Special \cup {"mc_bridge", "none"}
Classifies(c) == c.predictive # "none"
Supported(c) == /\ c.objective \in Objectives /\ c.predictive \in PredictiveKinds
                /\ c.push \in {"linear", "nonlinear"}
                /\ ~(c.push = "nonlinear" /\ c.predictive \in Special)
                /\ ~(Classifies(c) /\ c.objective = "chi_squared")
                /\ ~(~Classifies(c) /\ c.objective = "ece")
(* ---------------------------------------------- predictive distribution *)
(* one output with Jacobian j in the only parameter it depends on, of       *)
(* curvature d: variance j^2 / (d + t)                                      *)
P6(d, t6) == d * M6 + t6
ZSq(r, j, p6) == RDiv((r * r) * RDiv(p6, 100), j * j)
LnVar5(j, p6) == Ln5(j * j) - (Ln5(p6) - Ln5(M6))
NllLin(r, j, p6) == HalfLn2Pi + RDiv(LnVar5(j, p6), 20) + RDiv(ZSq(r, j, p6), 2)
\* rs, js, ps: residuals, Jacobians and precisions of all points and outputs
NllOf(rs, js, ps) == RDiv(SumSeq(TLCEval([i \in 1..Len(rs) |-> NllLin(rs[i], js[i], ps[i])])), Len(rs))
ChiOf(rs, js, ps) == Abs(RDiv(SumSeq(TLCEval([i \in 1..Len(rs) |-> ZSq(rs[i], js[i], ps[i])])), Len(rs)) - U)
(* evidence with the diagonal curvature ds and the summed loss              *)
HalfSq(th, t6) == RDiv(Dot(th, th) * RDiv(t6, 20), 10)
MllOf(loss, th, ds, t6) == -(RDiv(loss, 2)) - HalfSq(th, t6)
   + RDiv(Len(th) * (Ln5(t6) - Ln5(M6)) - SumSeq([i \in 1..Len(ds) |-> Ln5(P6(ds[i], t6)) - Ln5(M6)]), 20)
(* ------------------------------------- from given predictions (units 1/U) *)
NllGiven(ms, ss, ts) == RDiv(SumSeq(TLCEval([i \in 1..Len(ms) |->
    LET z == Quot(ms[i] - ts[i], ss[i]) IN HalfLn2Pi + LnRat(ss[i], U) + RDiv(FMul(z, z, U), 2)])), Len(ms))
ChiGiven(ms, ss, ts) == Abs(RDiv(SumSeq(TLCEval([i \in 1..Len(ms) |-> LET z == Quot(ms[i] - ts[i], ss[i]) IN FMul(z, z, U)])), Len(ms)) - U)
(* expected calibration error over 15 equal bins of confidences in 10^-6    *)
Bins == 15
Bin6(c) == IF c >= M6 THEN Bins ELSE (c * Bins) \div M6 + 1
OnEdge(c) == c < M6 - 30 /\ LET z == (c * Bins) % M6 IN z < 500 \/ z > M6 - 500
EceOf(cs, rs) == RDiv(RDiv(SumSeq(TLCEval([b \in 1..Bins |->
    Abs(SumSeq([i \in 1..Len(cs) |-> IF Bin6(cs[i]) = b THEN M6 * rs[i] - cs[i] ELSE 0]))])), Len(cs)), 100)
(* grid points: 10^x, x in thousandths, in units of 10^-6 is not needed:    *)
(* candidates are compared by their logarithm                               *)
GridLog(lo, hi, size, k) == IF size = 1 THEN lo ELSE RDiv(lo * (size - k) + hi * (k - 1), size - 1)
===========================================================================
