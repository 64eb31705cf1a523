----------------------------- MODULE Evidence -----------------------------
(* The Laplace evidence of a model: log joint at the fitted parameters plus *)
(* P/2 ln(2 pi) minus half the log-determinant of the posterior precision.  *)
(* Prior precision, noise variance and loss scaling are given in quarters;  *)
(* the curvature C is an integer matrix; curvature and prior precision are  *)
(* multiplied by 2^e. Evidences are in units of 1/U.                        *)
EXTENDS FixedPoint, PolyModel
(* ------------------------------------------------------- log-determinant *)
Prec(C, a) == AddM(ScaleM(a.s, C), ScaleM(a.t, IdM(Len(C))))
\* precision = Prec / lsf * 2^e
LnDetDense(C, a) == Ln5(Det(Prec(C, a))) - Len(C) * Ln5(a.lsf)
LnDetDiag(d, a) == SumSeq([i \in 1..Len(d) |-> Ln5(a.s * d[i] + a.t)]) - Len(d) * Ln5(a.lsf)
(* C = SUM m_k h_k h_k^T with orthogonal directions *)
LnDetTerms(hs, ms, n, a) == SumSeq([k \in 1..Len(hs) |-> Ln5(a.s * ms[k] * Dot(hs[k], hs[k]) + a.t)]) + (n - Len(hs)) * Ln5(a.t) - n * Ln5(a.lsf)
(* ------------------------------------------------- summed loss of a batch *)
(* integer outputs z; targets: integers (mse, custom, bce) or, for the      *)
(* cross-entropy, class weights out of S per group of K outputs             *)
LSE(v) == LET m == MaxSeq(v) IN m * U + LnRat(SumSeq([i \in 1..Len(v) |-> Exp((v[i] - m) * U)]), U)
SoftPlus(z) == Max2(z, 0) * U + LnRat(U + Exp(-Abs(z) * U), U)
Group(v, K, g) == SubSeq(v, (g - 1) * K + 1, g * K)
CE1(z, y, S) == LET l == LSE(z) IN RDiv(SumSeq([c \in 1..Len(z) |-> y[c] * (l - z[c] * U)]), S)
Loss1(L, z, y) ==
  CASE L.kind = "mse" -> U * SumSeq([c \in 1..Len(z) |-> (z[c] - y[c]) * (z[c] - y[c])])
    [] L.kind = "ce" -> SumSeq([g \in 1..(Len(z) \div L.K) |-> CE1(Group(z, L.K, g), Group(y, L.K, g), L.S)])
    [] L.kind = "bce" -> SumSeq([c \in 1..Len(z) |-> SoftPlus(z[c]) - RDiv(y[c] * z[c] * U, L.S)])
    [] L.kind = "custom" -> U * SumSeq([c \in 1..Len(z) |-> L.w[1] * Abs(z[c] - y[c]) + L.w[2] * z[c] * y[c] + L.w[3]])
SumLoss(L, mod, th, xs, ys) == SumSeq(TLCEval([i \in 1..Len(xs) |-> Loss1(L, Outputs(mod, th, xs[i]), ys[i])]))
(* ---------------------------------------------------------------- totals *)
RECURSIVE Shift(_, _)
Shift(x, e) == IF e = 0 THEN x ELSE IF e > 0 THEN Shift(2 * x, e - 1) ELSE Shift(RDiv(x, 2), e + 1)
Ln2Pi == 18379
HalfNorm(th, a, e) == Shift(RDiv(Dot(th, th) * a.t * (U \div 8), 1), e)
(* log joint: - loss / 2 - tau |th|^2 / 2 - P/2 ln(2 pi) + P/2 ln tau *)
LogJoint(loss, th, a, e) == -RDiv(loss, 2) - HalfNorm(th, a, e) + RDiv(Len(th) * (LnRat(a.t, 4) + (e * 69315) \div 10 - Ln2Pi), 2)
Evidence(loss, th, a, e, lndet) == LogJoint(loss, th, a, e) + RDiv(Len(th) * Ln2Pi, 2) - RDiv(lndet + Len(th) * e * 69315, 20)
Size(loss, th, a, e) == RDiv(Abs(loss), 2) + HalfNorm(th, a, e) + Len(th) * 2 * U
===========================================================================
