--------------------------- MODULE TraceLowRank ---------------------------
(* Recorded estimates against LowRank. U entries carry 4 decimals, values  *)
(* 3 decimals; columns are given as e.U[r] (one sequence per direction).   *)
EXTENDS LowRank, TraceLib
VARIABLES l, hs, ms, A, spc
tvars == <<l, hs, ms, A, spc>>
TInit == l = 1 /\ hs = <<>> /\ ms = <<>> /\ A = <<<<0>>>> /\ spc = <<0>>
N == Len(A)
U4 == 10000
Lam == spc[1]
Tol == 2 * N + 4 + Lam \div 2
Sorted(s) == SortSeq(s, LAMBDA a, b : a > b)
FDot(u, v) == SumSeq([i \in 1..Len(u) |-> FMul(u[i], v[i], U4)])
Au(u) == [i \in 1..N |-> RDiv(SumSeq([j \in 1..N |-> A[i][j] * u[j]]), 10)]
Live(e) == {r \in 1..Len(e.S) : e.S[r] > Tol \/ e.S[r] < -Tol}
SaneE(e) == /\ Len(e.U) = Len(e.S) /\ \A r \in 1..Len(e.U) : Len(e.U[r]) = N /\ SaneV(e.U[r], 11000)
            /\ SaneV(e.S, 200000)
Orthonormal(e) == \A r, s \in Live(e) : Near(FDot(e.U[r], e.U[s]), IF r = s THEN U4 ELSE 0, 2 * N + 20)
Ritz(e) == \A r \in Live(e) : LET w == Au(e.U[r]) IN
             \A s \in Live(e) : Near(SumSeq([i \in 1..N |-> FMul(e.U[s][i], w[i], U4)]), IF r = s THEN e.S[r] ELSE 0, Tol + N)
Interlace(e) == LET s == Sorted(e.S) IN \A k \in 1..Len(s) :
                  s[k] <= 1000 * (IF k <= N THEN spc[k] ELSE 0) + Tol /\ -Tol <= s[k]
(* the matrix SUM s_r u_r u_r^T with 3 decimals *)
Represented(e) == [i \in 1..N |-> [j \in 1..N |-> SumSeq([r \in 1..Len(e.S) |-> FMul(e.U[r][i], FMul(e.U[r][j], e.S[r], U4), U4)])]]
Generic(e) == e.b = <<>>
Met(e, lam) == Generic(e) \/ ~IsZero(Comp(hs, ms, e.b, lam))
Dim(e) == IF Generic(e) THEN Cardinality(Values(hs, ms)) + (IF RankOf(ms) < N THEN 1 ELSE 0) ELSE KrylovDim(hs, ms, e.b)
MeetsAll(e) == Generic(e) \/ \A k \in 1..Len(ms) : ms[k] # 0 => Dot(e.b, hs[k]) # 0
(* restriction of the operator to an exhausted Krylov space: SUM lam g g^T / |g|^2 *)
Restricted(e) == FoldLeft(LAMBDA acc, lam :
    LET g0 == Comp(hs, ms, e.b, lam)
        s == MaxSeq([i \in 1..N |-> Abs(g0[i])])
        \* direction with at most 2 decimals lost: entries scaled to 200
        g == IF s > 200 THEN [i \in 1..N |-> RDiv(g0[i] * 200, s)] ELSE g0
        n2 == Dot(g, g)
    IN IF n2 = 0 THEN acc ELSE AddM(acc, [i \in 1..N |-> [j \in 1..N |-> RDiv(lam * g[i] * g[j] * (1000 \div 8), n2) * 8]]),
    ZeroM(N, N), SetToSeq(Values(hs, ms)))
EstV(e) ==
  IF e.err # "" THEN "estimate-raised-" \o e.err
  ELSE IF Len(e.S) # e.announced \/ (e.solver = "lanczos" /\ e.announced # e.rank) \/ e.announced > e.rank THEN "number-of-directions"
  ELSE IF e.solver = "lanczos" /\ ~e.reorth /\ e.rank >= Dim(e) THEN "ok"   \* plain recursion after exhaustion: not claimed
  ELSE IF ~SaneE(e) THEN "not-finite-or-out-of-range"
  ELSE IF e.scalar # 0 THEN "scalar-part-not-zero"
  ELSE IF ~Interlace(e) THEN "value-exceeds-the-operator"
  ELSE IF ~Orthonormal(e) THEN "directions-not-orthonormal"
  ELSE IF ~Ritz(e) THEN "values-are-not-the-quadratic-forms"
  ELSE IF e.solver = "lobpcg" THEN
       LET s == Sorted(e.S) t == Tol + (IF e.tight THEN 0 ELSE (Lam * N) \div 20) IN
       IF \E k \in 1..Len(s) : ~Near(s[k], 1000 * spc[k], t) THEN "not-the-leading-values"
       ELSE IF \E r \in 1..Len(e.S) : ~NearV(Au(e.U[r]), [i \in 1..N |-> FMul(e.U[r][i], e.S[r], U4)], t) THEN "not-eigenvectors"
       ELSE "ok"
  ELSE IF e.rank >= Dim(e) /\ Distinct(hs, ms) /\ MeetsAll(e) THEN
       (IF NearM(Represented(e), ScaleM(1000, A), 2 * Tol + N) THEN "ok" ELSE "operator-not-reproduced")
  ELSE IF e.rank >= Dim(e) /\ e.b # <<>> /\ e.clean THEN
       (IF NearM(Represented(e), Restricted(e), 2 * Tol + N + Lam * 10) THEN "ok" ELSE "restriction-not-reproduced")
  ELSE "ok"
(* the raw recursion: A v_k = beta_(k-1) v_(k-1) + alpha_k v_k + beta_k v_(k+1),     *)
(* ended (beta_k = 0, all later vectors zero) where less than the tolerance is left   *)
Rest(e, k) == LET w == Au(e.V[k]) IN [i \in 1..N |-> w[i] - FMul(e.V[k][i], e.alpha[k], U4)
                 - FMul(e.V[k + 1][i], e.beta[k], U4) - (IF k = 1 THEN 0 ELSE FMul(e.V[k - 1][i], e.beta[k - 1], U4))]
Ended(e, k) == \E j \in 1..(k - 1) : e.beta[j] = 0
IterV(e) ==
  IF e.err # "" THEN "iterations-raised-" \o e.err
  ELSE IF Len(e.V) # e.rank + 1 \/ Len(e.alpha) # e.rank \/ Len(e.beta) # e.rank THEN "iterations-shape"
  ELSE IF ~(SaneV(e.alpha, 200000) /\ SaneV(e.beta, 200000) /\ \A k \in 1..Len(e.V) : Len(e.V[k]) = N /\ SaneV(e.V[k], 11000)) THEN "not-finite-or-out-of-range"
  ELSE IF \E i, j \in 1..Len(e.V) : i < j /\ ~Near(FDot(e.V[i], e.V[j]), 0, 2 * N + 20) THEN "krylov-vectors-not-orthogonal"
  ELSE IF e.tol <= 2 /\ \E k \in 1..Len(e.V) : ~Near(FDot(e.V[k], e.V[k]), IF k <= Dim(e) THEN U4 ELSE 0, 2 * N + 20) THEN "krylov-dimension"
  ELSE IF \E k \in 1..Len(e.V) : ~Near(FDot(e.V[k], e.V[k]), IF Ended(e, k) THEN 0 ELSE U4, 2 * N + 20) THEN "krylov-vector-length"
  ELSE IF \E k \in 1..e.rank : e.beta[k] < 0 \/ (e.beta[k] > 0 /\ e.beta[k] < e.tol - 2) THEN "continued-below-the-tolerance"
  ELSE IF \E k \in 1..e.rank : \E i \in 1..N : LET r == Rest(e, k)[i] IN
            ~Near(r, 0, Tol + 4 + (IF e.beta[k] = 0 THEN e.tol ELSE 0)) THEN "three-term-recursion"
  ELSE "ok"
(* eigenvalues asked for without vectors *)
ValsV(e) == IF NearV(Sorted(e.S), Sorted(e.T), Tol) THEN "ok" ELSE "values-depend-on-vectors"
OpV(e) == CASE e.ev = "Est" -> EstV(e) [] e.ev = "Iter" -> IterV(e) [] e.ev = "Vals" -> ValsV(e) [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN /\ hs' = e.hs /\ ms' = e.ms /\ A' = Operator(e.hs, e.ms, e.n) /\ spc' = Spectrum(e.hs, e.ms, e.n)
            ELSE Verdict(e, OpV(e)) /\ UNCHANGED <<hs, ms, A, spc>>
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
