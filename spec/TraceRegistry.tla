-------------------------- MODULE TraceRegistry ---------------------------
(* Recorded registrations and uses of methods against Registry.             *)
EXTENDS Registry, TraceLib
VARIABLES l
TInit == l = 1 /\ reg = [n \in {} |-> BuiltIn] /\ cal = [n \in {} |-> 0] /\ past = <<>>
Names0 == {"base", "other", "fam2", "fam3"}
Set(s) == {s[i] : i \in 1..Len(s)}
Seen(n, ss) == LET q == Spied(n, ss) IN {<<q[i], reg[n][q[i]][1]>> : i \in 1..Len(q)}
Calls(e) == {<<e.calls[i][1], e.calls[i][2]>> : i \in 1..Len(e.calls)}
RegisterV(e) == IF Accepted(e.op) THEN (IF e.err = "" THEN "ok" ELSE "registration-raised-" \o e.err)
                ELSE IF e.err = "" THEN "incomplete-registration-accepted"
                ELSE IF e.err # "ValueError" THEN "incomplete-registration-raised-" \o e.err
                ELSE IF Set(e.named) # Missing(e.op) THEN "missing-stages-not-named" ELSE "ok"
Tol(w) == 8 + Abs(w) \div 1000
CloseTo(v, w) == Near(v, w, Tol(w))
UseV(e) == IF e.nm \notin DOMAIN reg THEN (IF e.err = "" THEN "unregistered-name-usable" ELSE "ok")
           ELSE IF e.err # "" THEN "use-raised-" \o e.err
           ELSE IF Calls(e) # Seen(e.nm, e.stages) THEN "other-functions-called"
           ELSE IF e.what = "estimate" THEN (IF NearV(e.out, [i \in 1..Len(e.cs) |-> U * e.cs[i] * F(e.nm, "create")], 30 * F(e.nm, "create")) THEN "ok" ELSE "estimate")
           ELSE IF e.what = "cov" THEN (IF \A i \in 1..Len(e.cs) : CloseTo(e.out[i], CovWant(e.nm, e.cs[i], e.t, e.k, e.v[i])) THEN "ok" ELSE "covariance")
           ELSE IF e.what = "scale" THEN (IF \A i \in 1..Len(e.cs) : CloseTo(e.out[i], ScaleSqWant(e.nm, e.cs[i], e.t, e.k)) THEN "ok" ELSE "scale")
           ELSE IF CloseTo(e.out[1], MllWant(e.nm, e.cs, e.t, e.k)) THEN "ok" ELSE "marginal-likelihood"
CalV(e) == IF e.nm \notin DOMAIN cal THEN (IF e.err = "ValueError" THEN "ok" ELSE "unknown-method-" \o (IF e.err = "" THEN "accepted" ELSE e.err))
           ELSE IF e.err # "" THEN "calibration-raised-" \o e.err
           ELSE IF Set(e.called) # (IF cal[e.nm] = 0 THEN {} ELSE {cal[e.nm]}) \/ Len(e.called) > 1 THEN "other-calibration-method-called"
           ELSE IF cal[e.nm] # 0 /\ e.out # 100 * cal[e.nm] THEN "result-is-not-the-methods" ELSE "ok"
EvV(e) == CASE e.ev = "Register" -> RegisterV(e) [] e.ev = "RegisterCal" -> (IF e.err = "" THEN "ok" ELSE "raised-" \o e.err)
            [] e.ev = "Use" -> UseV(e) [] e.ev = "Calibrate" -> CalV(e) [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN reg' = [n \in Names0 |-> BuiltIn] /\ cal' = [n \in {"grid_search"} |-> 0] /\ past' = <<>>
            ELSE /\ Verdict(e, EvV(e))
                 /\ CASE e.ev = "Register" -> Register(e.op) [] e.ev = "RegisterCal" -> RegisterCal(e.op) [] OTHER -> UNCHANGED rvars
TSpec == TInit /\ [][TNext]_<<rvars, l>>
===========================================================================
