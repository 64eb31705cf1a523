---------------------------- MODULE Gradients ----------------------------
(* Derivatives of the posterior covariance, of the linearised predictions   *)
(* and of the evidence in the prior precision t, the noise variance s, the  *)
(* loss scaling l and the likelihood scale g (all given in quarters), for a *)
(* curvature C = SUM m_k h_k h_k^T with orthogonal directions h_k.          *)
EXTENDS Evidence
W == 1000000
Args == {"t", "s", "l", "g"}
Mu(w, k) == w.ms[k] * Dot(w.hs[k], w.hs[k])
Ak(a, mu) == a.t + a.s * mu
(* eigenvalues of covariance and its derivatives where the curvature has eigenvalue mu *)
Eig(wrt, a, mu, u) == LET x == Ak(a, mu) IN
  CASE wrt = "val" -> RDiv(a.lsf * u, x)
    [] wrt = "t" -> -RDiv(4 * a.lsf * u, x * x)
    [] wrt = "s" -> -RDiv(4 * a.lsf * mu * u, x * x)
    [] wrt = "l" -> RDiv(4 * u, x)
    [] wrt = "g" -> 0
(* bilinear form u^T F v in units of 1/n *)
Form(w, wrt, a, n, u, v) ==
  LET f0 == Eig(wrt, a, 0, n)
  IN  f0 * Dot(u, v) + SumSeq([k \in 1..Len(w.hs) |->
        RDiv((Eig(wrt, a, Mu(w, k), n) - f0) * Dot(u, w.hs[k]) * Dot(v, w.hs[k]), Dot(w.hs[k], w.hs[k]))])
FormM(w, wrt, a, n, us) == TLCEval([i \in 1..Len(us) |-> TLCEval([j \in 1..Len(us) |-> Form(w, wrt, a, n, us[i], us[j])])])
(* every eigenvalue of the curvature, zeros included *)
Eigs(w, n) == TLCEval([k \in 1..n |-> IF k <= Len(w.hs) THEN Mu(w, k) ELSE 0])
(* derivative of the evidence in units of 1/U; loss in units of 1/U *)
DEvid(w, wrt, a, loss, th) ==
  LET n == Len(th)  es == Eigs(w, n) IN
  CASE wrt = "t" -> -RDiv(Dot(th, th) * U, 2) + RDiv(2 * n * U, a.t) - SumSeq([k \in 1..n |-> RDiv(2 * U, Ak(a, es[k]))])
    [] wrt = "s" -> -SumSeq([k \in 1..n |-> RDiv(2 * es[k] * U, Ak(a, es[k]))])
    [] wrt = "l" -> RDiv(2 * n * U, a.lsf)
    [] wrt = "g" -> RDiv(8 * loss, a.g * a.g)
(* the evidence itself, with the likelihood scale *)
Evid(w, a, loss, th) == Evidence(RDiv(4 * loss, a.g), th, a, 0, LnDetTerms(w.hs, w.ms, Len(th), a))
(* five-point difference at steps of 1/16: 3 D = 4 (8 (v1 - v-1) - (v2 - v-2)) *)
Five(v) == 4 * (8 * (v[3] - v[2]) - (v[4] - v[1]))
===========================================================================
