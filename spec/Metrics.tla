----------------------------- MODULE Metrics -----------------------------
(* The published definitions of the metrics. Regression: predictions,       *)
(* deviations and targets are integers in eighths; classification: scores   *)
(* are integers, probabilities integers in units of 1/64, confidences in    *)
(* units of 1/1024. Results in units of 1/U.                                *)
EXTENDS FixedPoint
ArgMax(v) == CHOOSE i \in 1..Len(v) : \A j \in 1..Len(v) : v[j] < v[i] \/ (v[j] = v[i] /\ i <= j)
Mean(v) == RDiv(SumSeq(v), Len(v))
MapS(F(_), n) == TLCEval([i \in 1..n |-> F(i)])
(* --------------------------------------------------------- classification *)
Correct(pred, t) == MapS(LAMBDA i : IF ArgMax(pred[i]) = t[i] THEN 1 ELSE 0, Len(t))
(* target among the k largest scores; scores are distinct *)
TopK(v, t, k) == Cardinality({j \in 1..Len(v) : v[j] > v[t]}) < k
Accuracy(pred, t, k) == RDiv(100 * U * Cardinality({i \in 1..Len(t) : TopK(pred[i], t[i], k)}), Len(t))
(* - SUM p ln q with 0 ln x = 0 *)
CrossEntropy(p, q) == SumSeq(MapS(LAMBDA i : IF p[i] = 0 THEN 0 ELSE RDiv(-p[i] * LnRat(q[i], 64), 64), Len(p)))
Infinite(p, q) == \E i \in 1..Len(p) : p[i] # 0 /\ q[i] = 0
(* mean squared difference between probabilities and the one-hot target *)
BrierSum(p, t) == SumSeq(MapS(LAMBDA i : IF i = t THEN (p[i] - 64) * (p[i] - 64) ELSE p[i] * p[i], Len(p)))
Brier(ps, ts) == LET n == Len(ps)  s == SumSeq(MapS(LAMBDA i : BrierSum(ps[i], ts[i]), n))
                 IN  (RDiv(s * 10, n * Len(ps[1])) * 1000) \div 4096
(* ------------------------------------------------------ calibration bins *)
Bin(c, M) == IF c >= 1024 THEN M ELSE (c * M) \div 1024 + 1
In(cs, M, b) == {i \in 1..Len(cs) : Bin(cs[i], M) = b}
SumOver(S, f) == SumSeq(MapS(LAMBDA i : IF i \in S THEN f[i] ELSE 0, Len(f)))
(* c / 1024 in units of 1/U averaged over n *)
AvgConf(s, n) == IF n = 0 THEN 0 ELSE ((s * 625) \div (n * 64))
BinProp(cs, M, b) == RDiv(U * Cardinality(In(cs, M, b)), Len(cs))
BinConf(cs, M, b) == LET S == In(cs, M, b) IN AvgConf(SumOver(S, cs), Cardinality(S))
BinAcc(cs, rs, M, b) == LET S == In(cs, M, b) IN IF S = {} THEN 0 ELSE RDiv(U * SumOver(S, rs), Cardinality(S))
Gap(cs, rs, M, b) == Abs(BinAcc(cs, rs, M, b) - BinConf(cs, M, b))
ECE(cs, rs, M) == SumSeq(MapS(LAMBDA b : RDiv(Cardinality(In(cs, M, b)) * Gap(cs, rs, M, b), Len(cs)), M))
MCE(cs, rs, M) == MaxSeq(MapS(LAMBDA b : Gap(cs, rs, M, b), M))
(* ------------------------------------------------------------ regression *)
Res(ms, ts) == MapS(LAMBDA i : ms[i] - ts[i], Len(ms))
Scale(total, n, avg) == IF avg THEN RDiv(total, n) ELSE total
Chi1(r, s) == RDiv(r * r * U, s * s)
Chi(ms, ss, ts, avg) == LET r == Res(ms, ts) IN Scale(SumSeq(MapS(LAMBDA i : Chi1(r[i], ss[i]), Len(r))), Len(r), avg)
ChiZero(ms, ss, ts, avg) == Abs(Chi(ms, ss, ts, avg) - U)
Rmse(ms, ts) == LET r == Res(ms, ts) IN Sqrt(RDiv(SumSeq(MapS(LAMBDA i : r[i] * r[i], Len(r))) * (U \div 16), 4 * Len(r)))
HalfLn2Pi == 9189
Nll1(r, s) == HalfLn2Pi + LnRat(s, 8) + RDiv(r * r * U, 2 * (s * s))
Nll(ms, ss, ts, avg) == LET r == Res(ms, ts) IN Scale(SumSeq(MapS(LAMBDA i : Nll1(r[i], ss[i]), Len(r))), Len(r), avg)
InvSqrtPi == 5642
(* s (z (2 Phi(z) - 1) + 2 phi(z) - 1 / sqrt pi), z = r / s *)
Crps1(r, s) == LET z == Quot(r * (U \div 8), s * (U \div 8))
               IN  FMul(r * (U \div 8), 2 * Cdf(z) - U, U) + RDiv(s * (2 * Pdf(z) - InvSqrtPi), 8)
Crps(ms, ss, ts, avg) == LET r == Res(ms, ts) IN Scale(SumSeq(MapS(LAMBDA i : Crps1(r[i], ss[i]), Len(r))), Len(r), avg)
===========================================================================
