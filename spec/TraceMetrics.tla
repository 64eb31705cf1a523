--------------------------- MODULE TraceMetrics ---------------------------
(* Recorded calls of the metrics against their definitions. Regression data *)
(* are the recorded eighths times 2^e; rmse and crps are recorded over 2^e. *)
EXTENDS Metrics, TraceLib
VARIABLES l
TInit == l = 1
Tol(w) == 12 + Abs(w) \div 1500
NearW(a, w) == LET t == Tol(w) d == a - w IN d <= t /\ -d <= t
Avg(e) == e.opt # "sum"
Columns(M) == Transp(M)
Want(e) ==
  CASE e.fn = "correctness" -> [v |-> ScaleV(U, Correct(e.pred, e.t)), sh |-> <<Len(e.t)>>]
    [] e.fn = "accuracy" -> [v |-> MapS(LAMBDA i : Accuracy(e.pred, e.t, e.ks[i]), Len(e.ks)), sh |-> <<Len(e.ks)>>]
    [] e.fn = "brier" -> [v |-> <<Brier(e.p, e.t)>>, sh |-> <<>>]
    [] e.fn = "cross_entropy" ->
         LET ps == IF e.opt = "first" THEN Columns(e.p) ELSE e.p  qs == IF e.opt = "first" THEN Columns(e.q) ELSE e.q
         IN  [v |-> MapS(LAMBDA i : IF Infinite(ps[i], qs[i]) THEN 1000000000 ELSE CrossEntropy(ps[i], qs[i]), Len(ps)), sh |-> IF e.opt = "vector" THEN <<>> ELSE <<Len(ps)>>]
    [] e.fn = "bins" -> [v |-> Flat(<<MapS(LAMBDA b : BinProp(e.cs, e.bins, b), e.bins), MapS(LAMBDA b : BinConf(e.cs, e.bins, b), e.bins), MapS(LAMBDA b : BinAcc(e.cs, e.rs, e.bins, b), e.bins)>>), sh |-> <<3, e.bins>>]
    [] e.fn \in {"ece", "error_l1"} -> [v |-> <<ECE(e.cs, e.rs, e.bins)>>, sh |-> <<>>]
    [] e.fn \in {"mce", "error_inf"} -> [v |-> <<MCE(e.cs, e.rs, e.bins)>>, sh |-> <<>>]
    [] e.fn = "chi" -> [v |-> <<Chi(e.m, e.s, e.t, Avg(e))>>, sh |-> <<>>]
    [] e.fn = "chi_zero" -> [v |-> <<ChiZero(e.m, e.s, e.t, Avg(e))>>, sh |-> <<>>]
    [] e.fn = "rmse" -> [v |-> <<Rmse(e.m, e.t)>>, sh |-> <<>>]
    [] e.fn = "nll" -> [v |-> <<Nll(e.m, e.s, e.t, Avg(e)) + (IF Avg(e) THEN 1 ELSE Len(e.m)) * RDiv(e.e * 69315, 10)>>, sh |-> <<>>]
    [] e.fn = "crps" -> [v |-> <<Crps(e.m, e.s, e.t, Avg(e))>>, sh |-> <<>>]
MetricV(e) == IF e.err # "" THEN e.fn \o "-raised-" \o e.err
              ELSE LET w == Want(e) IN
                   IF e.sh # w.sh THEN e.fn \o "-shape"
                   ELSE IF \E i \in 1..Len(w.v) : ~NearW(e.out[i], w.v[i]) THEN e.fn \o "-is-not-its-definition" ELSE "ok"
RejectV(e) == IF e.err = "ValueError" THEN "ok" ELSE IF e.err = "" THEN e.fn \o "-accepts-mismatched-shapes" ELSE e.fn \o "-mismatch-raised-" \o e.err
EvV(e) == CASE e.ev = "Metric" -> MetricV(e) [] e.ev = "Mismatch" -> RejectV(e)
            [] e.ev = "Names" -> IF {e.got[i] : i \in 1..Len(e.got)} = {"rmse", "chi^2", "nll", "crps"} THEN "ok" ELSE "default-metrics"
            [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.ev = "Begin" THEN TRUE ELSE Verdict(e, EvV(e))
TSpec == TInit /\ [][TNext]_l
===========================================================================
