------------------------- MODULE TraceModeMachine -------------------------
(* Recorded histories against ModeMachine: every event is one action of    *)
(* the machine, observed modes and precisions must be those of its state.  *)
EXTENDS ModeMachine, TraceLib
VARIABLES l
tvars == <<mvars, l>>
TInit == l = 1 /\ global = FALSE /\ ctx = <<>> /\ calls = <<>> /\ hist = <<>>
Probe == 16777217     \* not representable in 32 bits
ModeV(e) == IF e.here # Eff THEN "mode-changed"
            ELSE IF Idle /\ e.there # global THEN "process-wide-mode-changed"
            ELSE IF e.dflt # Default(Eff) THEN "default-precision-changed" ELSE "ok"
EvalV(e) == IF calls = <<>> THEN "evaluation-outside-a-call"
            ELSE IF e.dtype # Last(calls).mv THEN "operator-evaluated-in-wrong-precision" ELSE "ok"
EndV(e) == IF calls = <<>> THEN "end-without-call"
  ELSE LET c == Last(calls) IN
       IF e.plan = "fail" THEN (IF e.err = "" THEN "failure-swallowed" ELSE IF e.want # "" /\ e.err # e.want THEN "other-error-raised" ELSE "ok")
       ELSE IF e.plan = "any" /\ e.err # "" THEN "ok"
       ELSE IF e.err # "" THEN "call-raised-" \o e.err
       ELSE IF \E i \in 1..Len(e.dtypes) : e.dtypes[i] # c.ret THEN "result-in-wrong-precision"
       ELSE IF c.mv = P64 /\ c.calc = P64 /\ c.ret = P64 /\ e.probe # -1 /\ e.probe # Probe THEN "precision-lost"
       ELSE IF c.calc = P64 /\ c.ret = P64 /\ e.dev > 10 THEN "calculated-in-lower-precision"
       ELSE IF c.calc = P32 /\ ~e.f32 THEN "calculated-in-other-precision"
       ELSE "ok"
OpV(e) == CASE e.ev = "Mode" -> ModeV(e) [] e.ev = "Eval" -> EvalV(e) [] e.ev = "End" -> EndV(e)
            [] e.ev \in {"Set", "Enter", "Exit", "Call"} -> "ok" [] OTHER -> "unexpected-" \o e.ev
Bound(h) == IF Len(h) > 40 THEN <<>> ELSE h
Stay == UNCHANGED mvars
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN global' = e.global /\ ctx' = <<>> /\ calls' = <<>> /\ hist' = <<>>
            ELSE /\ Verdict(e, OpV(e))
                 /\ CASE e.ev = "Set" -> UserSet(e.b) [] e.ev = "Enter" -> UserEnter(e.b) [] e.ev = "Exit" -> UserExit
                      [] e.ev = "Call" -> Start(e.mv, e.calc, e.ret)
                      [] e.ev = "Eval" /\ calls # <<>> -> Stay
                      [] e.ev = "End" /\ calls # <<>> -> (IF e.err = "" THEN Return ELSE Raise)
                      [] OTHER -> Stay
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
