-------------------------- MODULE TraceGridSearch -------------------------
(* Recorded searches of the implementation against GridSearch's actions.    *)
EXTENDS GridSearch, LA, TraceLib
VARIABLES l, skip
tvars == <<gvars, l, skip>>

TInit == l = 1 /\ skip = FALSE /\ GInit(0, 0, 0)

Keep == UNCHANGED gvars

Begin(e) == /\ n' = e.n /\ pat' = e.pat /\ max' = e.max
            /\ outs' = <<>> /\ inc' = 0 /\ pc' = "run" /\ chosen' = 0 /\ skip' = FALSE

(* objective called at grid index e.idx (0: not a grid point), keys of the prior argument e.keys *)
EvalV(e) == IF pc # "run" \/ MustStop THEN "evaluated-after-the-search-must-stop"
            ELSE IF e.idx # Len(outs) + 1 THEN "grid-points-not-evaluated-in-order-once"
            ELSE IF e.keys # <<"prior_prec">> THEN "prior-arguments-malformed"
            ELSE "ok"
ReturnV(e) == IF pc = "error" THEN "error-swallowed"
              ELSE IF ~MustStop THEN "stopped-without-reason"
              ELSE IF e.idx # FirstMin(outs) THEN "not-the-first-best-point"
              ELSE "ok"
RaiseV(e) == IF pc # "error" THEN "search-aborted-by-" \o e.err
             ELSE IF e.err # e.want THEN "wrong-error-propagated" ELSE "ok"
(* logarithmic grid of e.size points between 10^lo and 10^hi; logs scaled by 1000 *)
GridV(e) == IF Len(e.logs) # e.size THEN "grid-size"
            ELSE IF e.size = 1 THEN (IF Near(e.logs[1], 1000 * e.lo, 2) THEN "ok" ELSE "grid-start")
            ELSE IF \E i \in 1..e.size :
                     ~Near(e.logs[i], RDiv(1000 * (e.lo * (e.size - i) + e.hi * (i - 1)), e.size - 1), 2)
                 THEN "grid-not-logarithmic-with-end-points" ELSE "ok"

Step(e) ==
  LET v == CASE e.ev = "Eval" -> EvalV(e) [] e.ev = "Return" -> ReturnV(e)
             [] e.ev = "Raise" -> RaiseV(e) [] e.ev = "Grid" -> GridV(e)
             [] OTHER -> "unexpected-" \o e.ev
  IN /\ Verdict(e, v)
     /\ skip' = (v # "ok")
     /\ IF v # "ok" \/ e.ev \in {"Raise", "Grid"} THEN Keep
        ELSE IF e.ev = "Eval" THEN Evaluate(e.out) ELSE Return

TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN Begin(e)
            ELSE IF skip THEN Keep /\ UNCHANGED skip ELSE Step(e)
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
