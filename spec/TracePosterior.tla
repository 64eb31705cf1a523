-------------------------- MODULE TracePosterior --------------------------
(* Recorded sessions on one curvature estimate against Posterior. Vectors  *)
(* are integers, results carry 4 decimals; a result out of the covariance  *)
(* of posterior k must satisfy (s C + t I) out = lsf v, the dense scale    *)
(* (s C + t I) S S^T = lsf I.                                              *)
EXTENDS Posterior, TraceLib
VARIABLES l
tvars == <<pvars, l>>
K == 10000
TInit == l = 1 /\ C = <<<<0>>>> /\ posts = <<>> /\ reqs = <<>>
MaxAbs(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])] \o <<0>>)
RowAbs(A, i) == SumSeq([j \in 1..Len(A) |-> Abs(A[i][j])])
Solves(a, out, v) == LET A == Prec(a) IN
  \A i \in 1..P : Near(Dot(A[i], out), a.lsf * v[i] * K, RowAbs(A, i) * (2 + MaxAbs(out) \div 4000))
CovV(e) == IF e.k \notin 1..Len(posts) THEN "no-such-posterior"
  ELSE IF e.err # "" THEN "covariance-raised-" \o e.err
  ELSE IF ~e.ok THEN "covariance-structure"
  ELSE IF Len(e.out) # P \/ ~SaneV(e.out, 2000000) THEN "covariance-size"
  ELSE IF Solves(posts[e.k], e.out, e.v) THEN "ok" ELSE "covariance-is-not-the-inverse-precision"
ScaleEvV(e) == IF e.k \notin 1..Len(posts) THEN "no-such-posterior"
  ELSE IF e.err # "" THEN "scale-raised-" \o e.err
  ELSE IF ~e.ok THEN "scale-structure"
  ELSE IF Len(e.out) # P \/ (\E i \in 1..P : Len(e.out[i]) # P) \/ ~SaneM(e.out, 200000) THEN "scale-size"
  ELSE LET S == e.out      \* row i: image entries, column j: basis vector j
           M == [i \in 1..P |-> [j \in 1..P |-> SumSeq([n \in 1..P |-> FMul(S[i][n], S[j][n], K)])]]
           a == posts[e.k]
           m == MaxSeq([i \in 1..P |-> MaxAbs(M[i])])
           tol == 2 * P + 4 + m \div 2000
       IN IF \A i, j \in 1..P : Near(SumSeq([n \in 1..P |-> Prec(a)[i][n] * M[n][j]]), IF i = j THEN a.lsf * K ELSE 0, RowAbs(Prec(a), i) * tol)
          THEN "ok" ELSE "scale-squared-is-not-the-covariance"
(* S v against the dense S of the same posterior: the scale is one linear map *)
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
CondV(e) == IF e.err # "" THEN "conditioning-raised-" \o e.err ELSE "ok"
OpV(e) == CASE e.ev = "Cov" -> CovV(e) [] e.ev = "Scale" -> ScaleEvV(e) [] e.ev = "Unchanged" -> SameV(e) [] e.ev = "Cond" -> CondV(e)
            [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN C' = e.C /\ posts' = <<>> /\ reqs' = <<>>
            ELSE /\ Verdict(e, OpV(e))
                 /\ CASE e.ev = "Cond" /\ e.err = "" -> Condition(Arg(e.t, e.s, e.lsf))
                      [] e.ev = "Cov" /\ e.k \in 1..Len(posts) -> Request("cov", e.k)
                      [] e.ev = "Scale" /\ e.k \in 1..Len(posts) -> Request("scale", e.k)
                      [] OTHER -> UNCHANGED pvars
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
