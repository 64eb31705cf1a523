----------------------------- MODULE LowRank -----------------------------
(* Low-rank estimates of a symmetric positive semi-definite operator with  *)
(* known integer eigenpairs: A = SUM m_k h_k h_k^T, orthogonal h_k.        *)
EXTENDS LA, FiniteSetsExt
Outer(h) == TLCEval([i \in 1..Len(h) |-> ScaleV(h[i], h)])
Operator(hs, ms, n) == FoldLeft(LAMBDA acc, k : AddM(acc, ScaleM(ms[k], Outer(hs[k]))), ZeroM(n, n), [k \in 1..Len(hs) |-> k])
Eig(hs, ms, k) == ms[k] * Dot(hs[k], hs[k])
(* eigenvalues with multiplicity, descending, padded with zeros *)
Spectrum(hs, ms, n) == SortSeq([k \in 1..n |-> IF k <= Len(hs) THEN Eig(hs, ms, k) ELSE 0], LAMBDA a, b : a > b)
Values(hs, ms) == {Eig(hs, ms, k) : k \in 1..Len(hs)} \ {0}
Distinct(hs, ms) == \A i, j \in 1..Len(hs) : i # j /\ ms[i] # 0 => Eig(hs, ms, i) # Eig(hs, ms, j)
RankOf(ms) == Cardinality({k \in 1..Len(ms) : ms[k] # 0})
(* the component of b in the eigenspace of value lam # 0 as an integer     *)
(* vector g times 1/q (q: product of the squared lengths)                  *)
QOf(hs) == FoldLeft(LAMBDA x, h : x * Dot(h, h), 1, hs)
Comp(hs, ms, b, lam) == LET q == QOf(hs) IN
  FoldLeft(LAMBDA acc, k : IF Eig(hs, ms, k) = lam THEN AddV(acc, ScaleV(Dot(b, hs[k]) * (q \div Dot(hs[k], hs[k])), hs[k])) ELSE acc, ZeroV(Len(b)), [k \in 1..Len(hs) |-> k])
NullComp(hs, ms, b) == LET q == QOf(hs) IN
  FoldLeft(LAMBDA acc, k : IF ms[k] # 0 THEN SubV(acc, ScaleV(Dot(b, hs[k]) * (q \div Dot(hs[k], hs[k])), hs[k])) ELSE acc, ScaleV(q, b), [k \in 1..Len(hs) |-> k])
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0
(* dimension of the Krylov space of b: distinct eigenvalues b meets *)
KrylovDim(hs, ms, b) == Cardinality({lam \in Values(hs, ms) : ~IsZero(Comp(hs, ms, b, lam))})
                        + (IF IsZero(NullComp(hs, ms, b)) THEN 0 ELSE 1)
===========================================================================
