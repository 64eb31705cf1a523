--------------------------- MODULE TraceFitting ---------------------------
(* Recorded sessions of one-call fits: the estimate and the posterior       *)
(* products against the exact Gauss-Newton matrix of the whole dataset.     *)
EXTENDS Curvature, Fitting, TraceLib
VARIABLES l, ok
tvars == <<fvars, l, ok>>
KE == 1000   \* scale of recorded estimates
KV == 5000   \* scale of recorded products
TInit == l = 1 /\ rows = <<<<<<0>>>>>> /\ den0 = 1 /\ run = <<>> /\ fits = <<>> /\ posts = <<>> /\ ok = <<>>
MaxAbs(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])] \o <<0>>)
RowAbs(A, i) == SumSeq([j \in 1..Len(A) |-> Abs(A[i][j])])
Wanted(e) == Keeps(IF e.kind = "diagonal" THEN "diagonal" ELSE "full", ScaleM(e.num, Total))
FitV(e) == IF e.err # "" THEN "fit-raised-" \o e.err
   ELSE IF ~e.ok THEN "estimate-form"
   ELSE IF Len(e.est) # NP \/ (\E i \in 1..Len(e.est) : Len(e.est[i]) # NP) \/ ~SaneM(e.est, 10000000) THEN "estimate-size"
   ELSE LET W == TLCEval(Wanted(e))  d == e.den * den0  m == MaxSeq([i \in 1..NP |-> MaxAbs(e.est[i])])
            r == IF e.kind \in {"lanczos", "lobpcg"} THEN 300 ELSE 20000
        IN IF \A i, j \in 1..NP : Near(d * e.est[i][j], KE * W[i][j], d * (2 + m \div r)) THEN "ok"
           ELSE "estimate-is-not-the-scaled-sum"
Solves(p, out, v) == LET A == TLCEval(Prec(p)) IN
   \A i \in 1..NP : Near(Dot(A[i], out), Num(p) * v[i] * KV, RowAbs(A, i) * (2 + MaxAbs(out) \div (IF fits[p.fit].kind = "full" THEN 2000 ELSE 500)))
UseV(e) == IF e.k \notin 1..Len(posts) THEN "no-such-posterior"
   ELSE IF e.err # "" THEN e.what \o "-raised-" \o e.err
   ELSE IF ~e.ok THEN e.what \o "-structure"
   ELSE IF Len(e.out) # NP \/ ~SaneV(e.out, 2000000) THEN e.what \o "-size"
   ELSE IF Solves(posts[e.k], e.out, e.v) THEN "ok" ELSE e.what \o "-is-not-the-inverse-precision"
(* bare product of the streaming operator *)
MvV(e) == IF e.err # "" THEN "product-raised-" \o e.err ELSE IF ~e.ok \/ Len(e.out) # NP THEN "product-structure"
   ELSE LET d == e.den * den0 IN
     IF NearV(ScaleV(d, e.out), ScaleV(KE * e.num, MatVec(Total, e.v)), d * (2 + MaxAbs(e.out) \div 20000)) THEN "ok" ELSE "product-value"
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
RejectV(e) == IF e.err = "ValueError" THEN "ok" ELSE "accepted-" \o e.what
CondV(e) == IF e.err = "" THEN "ok" ELSE "conditioning-raised-" \o e.err
OpV(e) == CASE e.ev = "Fit" -> FitV(e) [] e.ev = "Cond" -> CondV(e) [] e.ev = "Use" -> UseV(e) [] e.ev = "Mv" -> MvV(e)
            [] e.ev = "Unchanged" -> SameV(e) [] e.ev = "Reject" -> RejectV(e) [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN
               /\ rows' = TLCEval([i \in 1..Len(e.data) |-> GGNOf(e.mod, e.L, e.th, e.data[i])])
               /\ den0' = Scale(e.L) /\ run' = <<>> /\ fits' = <<>> /\ posts' = <<>> /\ ok' = e.L
            ELSE /\ Verdict(e, OpV(e)) /\ UNCHANGED ok
                 /\ CASE e.ev = "Fit" -> Fit(IF e.kind = "diagonal" THEN "diagonal" ELSE IF e.kind = "full" THEN "full" ELSE "lowrank", e.num, e.den)
                      [] e.ev = "Cond" -> Condition(e.k, e.t, e.s, e.lsf)
                      [] OTHER -> UNCHANGED fvars
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
