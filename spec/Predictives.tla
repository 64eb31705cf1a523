--------------------------- MODULE Predictives ---------------------------
(* The published formulas of the classification predictives, in fixed       *)
(* point: logits, variances and probabilities are integers in units of      *)
(* 1/U, U = 10^4. Exponentials are computed by range reduction.             *)
EXTENDS FixedPoint
RECURSIVE Shrink(_, _)
Shrink(v, b) == IF \E i \in 1..Len(v) : v[i] > b THEN Shrink(TLCEval([i \in 1..Len(v) |-> v[i] \div 2]), b) ELSE v
Normalize(v) == LET s == Shrink(v, 50000)  t == SumSeq(s) IN TLCEval([i \in 1..Len(v) |-> RDiv(s[i] * U, t)])
Softmax(m) == LET x == MaxSeq(m) IN Normalize(TLCEval([i \in 1..Len(m) |-> Exp(m[i] - x)]))
Lambda == 3927      \* pi / 8
Factor(v) == Sqrt(U + FMul(v, Lambda, U))          \* sqrt(1 + pi/8 v)
MeanField0(m, v) == Softmax(TLCEval([i \in 1..Len(m) |-> Quot(m[i], Factor(v[i]))]))
(* 1 / SUM_j exp((m_j - m_i) / f_ij): sums dominated by one term are tiny probabilities *)
PairTerm(d, f) == LET z == Quot(d, f) IN IF z > 9 * U THEN Exp(9 * U) ELSE Exp(z)
PairPred(m, s(_, _)) == TLCEval([i \in 1..Len(m) |->
    LET t == SumSeq([j \in 1..Len(m) |-> IF i = j THEN U ELSE PairTerm(m[j] - m[i], Factor(s(i, j)))])
    IN  (U * U) \div t])
MeanField1(m, v) == PairPred(m, LAMBDA i, j : v[i] + v[j])
MeanField2(m, C) == PairPred(m, LAMBDA i, j : C[i][i] + C[j][j] - 2 * C[i][j])
(* Laplace bridge: Dirichlet parameters (1 - 2/K + e^m SUM e^-m / K^2) / v, normalised *)
Bridge(m, v) == LET n == Len(m)
                    ex == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> Exp(m[i] - m[j])])])
                    al == TLCEval([i \in 1..n |-> U - RDiv(2 * U, n) + RDiv(SumSeq(ex[i]), n * n)])
                    sc == Shrink(al, 40000000)
                    vv == Shrink(v, 200000)
                IN  Normalize(TLCEval([i \in 1..n |-> Quot(sc[i], vv[i])]))
(* with the variance correction: c = SUM v / sqrt(K/2), m / sqrt c, v / c (the last cancels) *)
BridgeScale(v) == Quot(SumSeq(v), Sqrt((Len(v) * U) \div 2))
(* the bridge is evaluated while its exponents stay below 9 *)
InRange(m) == MaxSeq(m) + MaxSeq([i \in 1..Len(m) |-> -m[i]]) <= 9 * U
BridgeCRange(m, v) == InRange(m) /\ LET s == Sqrt(BridgeScale(v)) IN InRange(TLCEval([i \in 1..Len(m) |-> Quot(m[i], s)]))
BridgeC(m, v) == LET s == Sqrt(BridgeScale(v)) IN Bridge(TLCEval([i \in 1..Len(m) |-> Quot(m[i], s)]), v)
MonteCarlo(zs) == LET p == TLCEval([k \in 1..Len(zs) |-> Softmax(zs[k])])
                  IN  TLCEval([i \in 1..Len(zs[1]) |-> RDiv(SumSeq([k \in 1..Len(zs) |-> p[k][i]]), Len(zs))])
(* ln of the predictives, for logits far apart: ln SUM e^d without leaving fixed point *)
LogSumExp(d) == LET x == MaxSeq(d) IN x + LnRat(SumSeq(TLCEval([j \in 1..Len(d) |-> Exp(d[j] - x)])), U)
LogNorm(d) == LET x == LogSumExp(d) IN TLCEval([i \in 1..Len(d) |-> d[i] - x])
LogMF0(m, v) == LogNorm(TLCEval([i \in 1..Len(m) |-> Quot(m[i], Factor(v[i]))]))
LogPair(m, s(_, _)) == TLCEval([i \in 1..Len(m) |-> -LogSumExp(TLCEval([j \in 1..Len(m) |-> Quot(m[j] - m[i], Factor(s(i, j)))]))])
LogMF1(m, v) == LogPair(m, LAMBDA i, j : v[i] + v[j])
LogMF2(m, C) == LogPair(m, LAMBDA i, j : C[i][i] + C[j][j] - 2 * C[i][j])
LogBridge(m, v) == LET n == Len(m)
                       ex(i) == [j \in 1..n |-> m[i] - m[j] - 2 * LnRat(n, 1)]
                       al(i) == LogSumExp(TLCEval(IF n = 2 THEN ex(i) ELSE Append(ex(i), LnRat(n - 2, n))))
                   IN  LogNorm(TLCEval([i \in 1..n |-> al(i) - LnRat(v[i], U)]))
LogBridgeC(m, v) == LET s == Sqrt(BridgeScale(v)) IN LogBridge(TLCEval([i \in 1..Len(m) |-> Quot(m[i], s)]), v)
Permute(v, p) == [i \in 1..Len(v) |-> v[p[i]]]
PermuteM(C, p) == [i \in 1..Len(C) |-> [j \in 1..Len(C) |-> C[p[i]][p[j]]]]
IsDist(p) == (\A i \in 1..Len(p) : p[i] >= 0) /\ Near(SumSeq(p), U, Len(p))
===========================================================================
