---------------------------- MODULE Posterior ----------------------------
(* A session on one curvature estimate. Conditioning on prior arguments    *)
(* (t: prior precision, s: noise variance, lsf: loss scaling; all in units *)
(* of 1/4) creates a posterior; its covariance and scale products can be   *)
(* applied any time later, interleaved with further conditionings.         *)
EXTENDS LA
VARIABLES C,      \* estimate, symmetric P x P integers
          posts,  \* arguments of the posteriors obtained so far
          reqs    \* requests so far: <<op, handle>>
pvars == <<C, posts, reqs>>
P == Len(C)
(* (s C + t I) = lsf * precision, an integer matrix *)
Prec(a) == AddM(ScaleM(a.s, C), ScaleM(a.t, IdM(P)))
(* arguments not given (-1) default to one *)
Unit == 4
OrOne(x) == IF x = -1 THEN Unit ELSE x
Arg(t, s, lsf) == [t |-> t, s |-> OrOne(s), lsf |-> OrOne(lsf)]
Condition(a) == posts' = Append(posts, a) /\ reqs' = Append(reqs, <<"cond", Len(posts) + 1>>) /\ UNCHANGED C
Request(op, k) == k \in 1..Len(posts) /\ reqs' = Append(reqs, <<op, k>>) /\ UNCHANGED <<C, posts>>
(* the covariance as a fraction Num / Den *)
CovNum(a) == ScaleM(a.lsf, Adj(Prec(a)))
CovDen(a) == Det(Prec(a))
IsInverse == \A k \in 1..Len(posts) : LET a == posts[k] IN
    MatMul(Prec(a), CovNum(a)) = ScaleM(a.lsf * CovDen(a), IdM(P))
Positive == \A k \in 1..Len(posts) : CovDen(posts[k]) > 0
(* low-rank form of the same estimate: orthogonal integer directions h_k   *)
(* with weights m_k: C = SUM m_k h_k h_k^T                                  *)
OuterP(h) == TLCEval([i \in 1..Len(h) |-> ScaleV(h[i], h)])
FromTerms(hs, ms, n) == FoldLeft(LAMBDA acc, k : AddM(acc, ScaleM(ms[k], OuterP(hs[k]))), ZeroM(n, n), [k \in 1..Len(hs) |-> k])
(* covariance from the terms: lsf/t I + SUM (lsf/(s m n + t) - lsf/t) h h^T / n, n = |h|^2 *)
LowRankInverse(hs, ms, a) ==
  LET n(k) == Dot(hs[k], hs[k])
      e(k) == a.s * ms[k] * n(k) + a.t              \* eigenvalue of Prec along h_k
      E == FoldLeft(LAMBDA x, k : x * e(k), 1, [k \in 1..Len(hs) |-> k])
      \* t * E * covariance / lsf as an integer matrix
      M == FoldLeft(LAMBDA acc, k : AddM(acc, ScaleM(-(a.s * ms[k]) * (E \div e(k)), OuterP(hs[k]))), ScaleM(E, IdM(P)), [k \in 1..Len(hs) |-> k])
  IN MatMul(Prec(a), M) = ScaleM(a.t * E, IdM(P))
===========================================================================
