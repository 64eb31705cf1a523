------------------------- MODULE TracePushforward -------------------------
(* Recorded predictions against the definitions of Pushforward, for the     *)
(* polynomial models of PolyModel. Values carry 3 decimals (K). The weight  *)
(* covariance is num/den; W holds the weight perturbations (scale times     *)
(* noise) of the samples, E the noise itself.                               *)
EXTENDS LA, PolyModel, TraceLib
VARIABLES l, w
tvars == <<l, w>>
K == 1000
TInit == l = 1 /\ w = [sc |-> -1]
N == Len(w.th)
Dn == Len(w.mod)
S == Len(w.W)
ShOut(e) == e.sh = w.osh
MaxAbs(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])] \o <<0>>)
AbsSum(v) == SumSeq([i \in 1..Len(v) |-> Abs(v[i])])
(* ------------------------------------------------------------ definitions *)
F(x) == Outputs(w.mod, w.th, x)
Jx(x) == Jac(w.mod, w.th, x)
(* den * J(a) S J(b)^T *)
KernNum(a, b) == MatMul(MatMul(Jx(a), w.num), Transp(Jx(b)))
(* model in fixed point at the weights p (K units) *)
FProdAt(p, is) == FoldLeft(LAMBDA a, i : FMul(a, p[i], K), K, is)
FixOut(p, x) == TLCEval([c \in 1..Dn |-> SumSeq([k \in 1..Len(w.mod[c]) |->
                   LET m == w.mod[c][k] IN m.c * ProdAt(x, m.xs) * FProdAt(p, m.ps)])])
(* bound of the change of output c per unit of error of every weight, plus rounding *)
AbsD(p, x, c) == SumSeq([k \in 1..Len(w.mod[c]) |->
                   LET m == w.mod[c][k]  q == Abs(m.c * ProdAt(x, m.xs)) IN
                   q * (1 + SumSeq([i \in 1..Len(m.ps) |-> Abs(FProdAt(p, Del(m.ps, i))) \div K + 1]))])
Theta(i) == AddV(ScaleV(K, w.th), w.W[i])
Ens(x) == TLCEval([i \in 1..S |-> FixOut(Theta(i), x)])
EnsErr(x) == TLCEval([c \in 1..Dn |-> 2 + MaxSeq([i \in 1..S |-> AbsD(Theta(i), x, c)])])
EnsMean(en) == TLCEval([c \in 1..Dn |-> RDiv(SumSeq([i \in 1..S |-> en[i][c]]), S)])
EnsCovAt(en, mu, a, b) == RDiv(SumSeq([i \in 1..S |-> FMul(en[i][a] - mu[a], en[i][b] - mu[b], K)]), S)
Spread(en, mu, c) == MaxSeq([i \in 1..S |-> Abs(en[i][c] - mu[c])])
SaneEns(en) == \A i \in 1..S : SaneV(en[i], 150000)
CovErr(en, mu, er, a, b) == 4 + (2 * (Spread(en, mu, a) * er[b] + Spread(en, mu, b) * er[a])) \div K + (er[a] * er[b]) \div K
(* linear samples *)
LinTol(x, c) == 3 + AbsSum(Jx(x)[c]) + Abs(F(x)[c]) \div 500
LinSample(x, i) == LET J == Jx(x) IN TLCEval([c \in 1..Dn |-> K * F(x)[c] + Dot(J[c], w.W[i])])
(* ----------------------------------------------------------------- entries *)
LinCovTol(v) == w.den * (3 + Abs(v) \div (4000 * w.den))
LinVarOk(v, n) == Near(v * w.den, n * K, LinCovTol(n * K))
(* deviation v (K units) against variance num n / den *)
StdOk(v, n) == v >= 0 /\ Near(FMul(v, v, K) * w.den, n * K, w.den * (3 + (3 * v) \div K) + LinCovTol(n * K))
SampleCount == IF w.kind = "lin" THEN S ELSE w.cnt
ShStacked(e) == e.sh = <<SampleCount>> \o w.osh
ShCov(e) == IF Dn = 1 THEN Prod(e.sh) = 1 ELSE e.sh = <<Dn, Dn>>
LinV(e, x) ==
  CASE e.nm \in {"map", "pred_mean"} -> IF ~ShOut(e) THEN "shape" ELSE IF NearV(e.v, ScaleV(K, F(x)), 2 + MaxAbs(F(x)) \div 500) THEN "ok" ELSE "mean"
    [] e.nm = "pred_cov" -> IF ~ShCov(e) \/ Len(e.v) # Dn * Dn THEN "shape" ELSE IF ~SaneV(e.v, 15000000) THEN "covariance"
         ELSE LET M == KernNum(x, x)  R == Rows(e.v, Dn, Dn) IN IF \A a, b \in 1..Dn : LinVarOk(R[a][b], M[a][b]) THEN "ok" ELSE "covariance"
    [] e.nm = "pred_var" -> IF ~ShOut(e) \/ Len(e.v) # Dn THEN "shape" ELSE IF ~SaneV(e.v, 15000000) THEN "variance"
         ELSE LET M == KernNum(x, x) IN IF \A a \in 1..Dn : LinVarOk(e.v[a], M[a][a]) THEN "ok" ELSE "variance"
    [] e.nm = "pred_std" -> IF ~ShOut(e) \/ Len(e.v) # Dn THEN "shape" ELSE IF ~SaneV(e.v, 120000) THEN "deviation"
         ELSE LET M == KernNum(x, x) IN IF \A a \in 1..Dn : StdOk(e.v[a], M[a][a]) THEN "ok" ELSE "deviation"
    [] e.nm = "samples" -> IF ~ShStacked(e) \/ Len(e.v) # S * Dn THEN "number-of-samples"
         ELSE LET R == Rows(e.v, S, Dn) IN IF \A i \in 1..S : \A c \in 1..Dn : Near(R[i][c], LinSample(x, i)[c], LinTol(x, c)) THEN "ok" ELSE "samples"
    [] OTHER -> "unexpected-entry"
NonlinV(e, x) == LET en == Ens(x)  mu == EnsMean(en)  er == EnsErr(x) IN
  IF ~SaneEns(en) THEN "out-of-range"
  ELSE CASE e.nm = "map" -> IF ShOut(e) /\ NearV(e.v, ScaleV(K, F(x)), 2 + MaxAbs(F(x)) \div 500) THEN "ok" ELSE "map"
    [] e.nm = "pred_mean" -> IF ~ShOut(e) \/ Len(e.v) # Dn THEN "shape" ELSE IF \A c \in 1..Dn : Near(e.v[c], mu[c], er[c]) THEN "ok" ELSE "mean"
    [] e.nm = "pred_cov" -> IF ~ShCov(e) \/ Len(e.v) # Dn * Dn THEN "shape"
         ELSE LET R == Rows(e.v, Dn, Dn) IN IF \A a, b \in 1..Dn : Near(R[a][b], EnsCovAt(en, mu, a, b), CovErr(en, mu, er, a, b)) THEN "ok" ELSE "covariance"
    [] e.nm = "pred_var" -> IF ~ShOut(e) \/ Len(e.v) # Dn THEN "shape"
         ELSE IF \A a \in 1..Dn : Near(e.v[a], EnsCovAt(en, mu, a, a), CovErr(en, mu, er, a, a)) THEN "ok" ELSE "variance"
    [] e.nm = "pred_std" -> IF ~ShOut(e) \/ Len(e.v) # Dn THEN "shape" ELSE IF ~SaneV(e.v, 200000) THEN "deviation"
         ELSE IF \A a \in 1..Dn : e.v[a] >= 0 /\ Near(FMul(e.v[a], e.v[a], K), EnsCovAt(en, mu, a, a), 2 + (2 * e.v[a]) \div K + CovErr(en, mu, er, a, a)) THEN "ok" ELSE "deviation"
    [] e.nm = "samples" -> IF ~ShStacked(e) \/ Len(e.v) # w.cnt * Dn THEN "number-of-samples"
         ELSE LET R == Rows(e.v, w.cnt, Dn) IN IF \A i \in 1..w.cnt : \A c \in 1..Dn : Near(R[i][c], en[i][c], er[c]) THEN "ok" ELSE "samples"
    [] OTHER -> "unexpected-entry"
EntryV(e) == IF e.err # "" THEN e.nm \o "-raised-" \o e.err
  ELSE IF \E i \in 1..Len(e.v) : e.v[i] = 999999999 THEN e.nm \o "-not-a-number"
  ELSE LET v == IF w.kind = "lin" THEN LinV(e, w.xs[e.x]) ELSE NonlinV(e, w.xs[e.x])
       IN  IF v = "ok" THEN v ELSE e.nm \o ":" \o v
MissingV(e) == "requested-entry-missing-" \o e.nm
KernelV(e) == IF e.err # "" THEN "kernel-raised-" \o e.err
  ELSE LET M == KernNum(w.xs[e.a], w.xs[e.b]) IN
       IF e.form = "dense"
       THEN IF ~ShCov(e) \/ Len(e.v) # Dn * Dn THEN "kernel-shape" ELSE IF ~SaneV(e.v, 15000000) THEN "kernel"
            ELSE IF \A a, b \in 1..Dn : LinVarOk(Rows(e.v, Dn, Dn)[a][b], M[a][b]) THEN "ok" ELSE "kernel"
       ELSE IF ~ShOut(e) \/ Len(e.v) # Dn THEN "kernel-shape" ELSE IF ~SaneV(e.v, 15000000) THEN "kernel"
            ELSE IF \A a \in 1..Dn : LinVarOk(e.v[a], Dot(M[a], e.vec)) THEN "ok" ELSE "kernel"
RaiseV(e) == IF e.err = e.want THEN "ok" ELSE "accepted-" \o e.what
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
(* ---------------------------------------------------------- weight samples *)
(* the sample of index i is the mean plus scale times the noise of index i *)
WeightV(e) == IF e.err # "" THEN "weight-sample-raised-" \o e.err ELSE IF ~e.ok THEN "weight-sample-structure"
  ELSE IF Len(e.v) # N THEN "weight-sample-size"
  ELSE IF \A p \in 1..N : Near(e.v[p], K * e.mean[p] + Dot(w.L[p], w.E[e.i]), 2 + AbsSum(w.L[p]) + Abs(e.mean[p])) THEN "ok"
       ELSE "weight-sample-is-not-mean-plus-scaled-noise"
(* noise (5 decimals) of n indices over leaves given by their bounds *)
DistinctV(u, v) == \A i \in 1..Len(u) : u[i] # v[i]
Leaf(v, b) == SubSeq(v, b[1], b[2])
NoiseV(e) == IF e.err # "" THEN "noise-raised-" \o e.err
  ELSE IF \E i, j \in 1..Len(e.E) : i < j /\ ~DistinctV(e.E[i], e.E[j]) THEN "different-indices-share-noise"
  ELSE IF \E i \in 1..Len(e.E) : \E a, b \in 1..Len(e.bounds) :
          a < b /\ \E z \in 1..Min2(1 + e.bounds[a][2] - e.bounds[a][1], 1 + e.bounds[b][2] - e.bounds[b][1]) :
                       e.E[i][e.bounds[a][1] + z - 1] = e.E[i][e.bounds[b][1] + z - 1] THEN "different-leaves-share-noise"
  ELSE IF \E i \in 1..Len(e.E) : \E p, q \in 1..Len(e.E[i]) : p < q /\ e.E[i][p] = e.E[i][q] THEN "entries-share-noise"
  ELSE "ok"
AgainV(e) == IF e.err # "" THEN "raised-" \o e.err ELSE IF e.a = e.b THEN "ok" ELSE "not-reproducible-" \o e.what
DifferV(e) == IF DistinctV(e.a, e.b) THEN "ok" ELSE "same-noise-" \o e.what
(* sums (in units of 1/1000) of n standard normal draws: their mean, square, fourth power and a cross product *)
MomentV(e) == LET n == e.n  s == ISqrt(n) IN
  IF ~Near(e.s1, 0, 6 * s * K) THEN "noise-mean"
  ELSE IF ~Near(e.s2, n * K, 9 * s * K) THEN "noise-variance"
  ELSE IF ~Near(e.s4, 3 * n * K, 60 * s * K) THEN "noise-kurtosis"
  ELSE IF ~Near(e.cross, 0, 6 * s * K) THEN "noise-correlated"
  ELSE "ok"
EvV(e) == CASE e.ev = "Entry" -> EntryV(e) [] e.ev = "Missing" -> MissingV(e) [] e.ev = "Kernel" -> KernelV(e)
            [] e.ev = "Raise" -> RaiseV(e) [] e.ev = "Unchanged" -> SameV(e) [] e.ev = "Weight" -> WeightV(e)
            [] e.ev = "Noise" -> NoiseV(e) [] e.ev = "Again" -> AgainV(e) [] e.ev = "Differ" -> DifferV(e) [] e.ev = "Moments" -> MomentV(e)
            [] e.ev = "Options" -> "ok"
            [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN w' = e
            ELSE IF e.ev = "Options" THEN w' = [w EXCEPT !.kind = e.kind, !.cnt = e.cnt]
            ELSE Verdict(e, EvV(e)) /\ UNCHANGED w
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
