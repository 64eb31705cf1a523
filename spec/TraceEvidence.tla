-------------------------- MODULE TraceEvidence --------------------------
(* Recorded marginal log-likelihoods and log joints against Evidence.       *)
EXTENDS Evidence, TraceLib
VARIABLES l, w, loss
TInit == l = 1 /\ w = <<>> /\ loss = 0
LnDet(c) == CASE w.form = "dense" -> LnDetDense(w.C, c) [] w.form = "diag" -> LnDetDiag(w.d, c) [] w.form = "terms" -> LnDetTerms(w.hs, w.ms, Len(w.th), c)
Wanted(e) == IF e.what = "joint" THEN LogJoint(loss, w.th, e.a, w.e) ELSE Evidence(loss, w.th, e.a, w.e, LnDet(e.a))
Tol(e) == 25 + 2 * Len(w.xs) * Len(w.mod) + Len(w.th) + Size(loss, w.th, e.a, w.e) \div 3000
ValueV(e) == IF e.err # "" THEN e.rep \o "-raised-" \o e.err ELSE IF e.sh # <<>> THEN e.rep \o "-is-not-a-scalar"
             ELSE IF ~Near(e.v, Wanted(e), Tol(e)) THEN e.rep \o "-is-not-the-evidence" ELSE "ok"
AgreeV(e) == IF \A i, j \in 1..Len(e.vs) : Near(e.vs[i], e.vs[j], 12 + Abs(e.vs[1]) \div 20000) THEN "ok" ELSE "representations-disagree"
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin"
            THEN w' = e /\ loss' = SumLoss(e.L, e.mod, e.th, e.xs, e.ys)
            ELSE UNCHANGED <<w, loss>> /\ Verdict(e, CASE e.ev = "Value" -> ValueV(e) [] e.ev = "Agree" -> AgreeV(e) [] OTHER -> "unexpected-" \o e.ev)
TSpec == TInit /\ [][TNext]_<<l, w, loss>>
===========================================================================
