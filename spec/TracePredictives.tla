------------------------- MODULE TracePredictives -------------------------
(* Recorded predictives against the formulas. Logits, variances and         *)
(* covariances in units of 1/U, probabilities in units of 10^-6.            *)
EXTENDS Predictives, TraceLib
VARIABLES l
TInit == l = 1
M == 1000000
Sums(p) == Near(SumSeq(p), M, 40) /\ \A i \in 1..Len(p) : p[i] >= 0
Close(p, s) == Len(p) = Len(s) /\ \A i \in 1..Len(p) : Near(p[i], 100 * s[i], 800)
Wanted(t, e) == CASE t = "laplace_bridge" -> BridgeC(e.m, e.v) [] t = "laplace_bridge_plain" -> Bridge(e.m, e.v)
                  [] t \in {"mean_field_0", "default"} -> MeanField0(e.m, e.v) [] t = "mean_field_1" -> MeanField1(e.m, e.v)
                  [] t = "mean_field_2" -> MeanField2(e.m, e.C) [] t = "mc" -> MonteCarlo(e.zs) [] t = "softmax" -> Softmax(e.m)
IsProb(t) == t \in {"laplace_bridge", "laplace_bridge_plain", "mean_field_0", "default", "mc", "softmax"}
PredV(e) == IF e.err # "" THEN e.type \o "-raised-" \o e.err
  ELSE IF Len(e.out) # Len(e.m) \/ e.sh # <<Len(e.m)>> THEN e.type \o "-shape"
  ELSE IF \E i \in 1..Len(e.out) : Abs(e.out[i]) > 2 * M THEN e.type \o "-out-of-range"
  ELSE IF ~Close(e.out, Wanted(e.type, e)) THEN e.type \o "-is-not-its-formula"
  ELSE IF IsProb(e.type) /\ ~Sums(e.out) THEN e.type \o "-is-not-a-probability-vector"
  ELSE "ok"
PermV(e) == IF NearV(e.b, Permute(e.a, e.p), 30) THEN "ok" ELSE e.type \o "-relabelling"
ZeroV_(e) == IF Close(e.out, Softmax(e.m)) THEN "ok" ELSE e.type \o "-zero-variance"
(* small probabilities keep their logarithm: out = ln p in units of 1/U *)
LogWanted(e) == CASE e.type = "mean_field_0" -> LogMF0(e.m, e.v) [] e.type = "mean_field_1" -> LogMF1(e.m, e.v)
                  [] e.type = "mean_field_2" -> LogMF2(e.m, e.C) [] e.type = "laplace_bridge" -> LogBridgeC(e.m, e.v)
                  [] e.type = "laplace_bridge_plain" -> LogBridge(e.m, e.v)
LogV(e) == IF e.err # "" THEN e.type \o "-raised-" \o e.err
  ELSE IF Len(e.out) # Len(e.m) THEN e.type \o "-shape"
  ELSE LET w == LogWanted(e) IN IF \A i \in 1..Len(w) : Near(e.out[i], w[i], 100 + Abs(w[i]) \div 200) THEN "ok"
       ELSE e.type \o "-loses-small-probabilities"
EvV(e) == CASE e.ev = "Log" -> LogV(e) [] e.ev = "Pred" -> PredV(e) [] e.ev = "Push" -> PredV(e) [] e.ev = "Perm" -> PermV(e) [] e.ev = "Zero" -> ZeroV_(e)
            [] e.ev = "Missing" -> "missing-entry" [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN IF e.ev = "Begin" THEN TRUE ELSE Verdict(e, EvV(e))
TSpec == TInit /\ [][TNext]_l
===========================================================================
