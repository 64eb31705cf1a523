------------------------- MODULE TraceCalibration -------------------------
(* Recorded calibrations: the search as a behaviour of GridSearch (outcomes *)
(* are the ranks of the objective values), the objective values against     *)
(* their definitions.                                                       *)
EXTENDS Calibration, GridSearch, TraceLib
VARIABLES l, w, loss, s
tvars == <<n, pat, max, outs, inc, pc, chosen, l, w, loss, s>>
TInit == l = 1 /\ w = <<>> /\ loss = 0 /\ s = <<>> /\ GInit(0, 0, 0)
(* ------------------------------------------------------------ definitions *)
C == Len(w.mod)
NP == Len(w.xs)
Class == Classifies(w.cfg)
F(i) == Outputs(w.mod, w.th, w.xs[i])
Par(c) == w.par[c]
JAt(i, c) == Jac(w.mod, w.th, w.xs[i])[c][Par(c)]
OneHot(k, c) == IF k = c THEN 1 ELSE 0
TargetAt(i, c) == IF Class THEN OneHot(w.ts[i][1], c) ELSE w.ts[i][c]
Each(G(_, _)) == TLCEval([k \in 1..(NP * C) |-> G((k - 1) \div C + 1, ((k - 1) % C) + 1)])
Rs == Each(LAMBDA i, c : F(i)[c] - TargetAt(i, c))
Js == Each(JAt)
Ps(t6) == Each(LAMBDA i, c : P6(w.d[Par(c)], t6))
Targets == Each(LAMBDA i, c : U * TargetAt(i, c))
Correct6 == [i \in 1..NP |-> IF ArgMax(F(i)) = w.ts[i][1] THEN 1 ELSE 0]
Conf(e) == [i \in 1..NP |-> MaxSeq(e.act[i])]
Linear == w.cfg.push = "linear"
Want(e) == CASE w.cfg.objective = "nll" -> IF Linear THEN NllOf(Rs, Js, Ps(e.t6)) ELSE NllGiven(e.m, e.s, Targets)
             [] w.cfg.objective = "chi_squared" -> IF Linear THEN ChiOf(Rs, Js, Ps(e.t6)) ELSE ChiGiven(e.m, e.s, Targets)
             [] w.cfg.objective = "marginal_log_likelihood" -> -MllOf(loss, w.th, w.d, e.t6)
             [] w.cfg.objective = "ece" -> EceOf(Conf(e), Correct6)
Tol(v) == CASE w.cfg.objective = "ece" -> 8
            [] w.cfg.objective = "marginal_log_likelihood" -> 30 + 2 * NP * C + (RDiv(Abs(loss), 2) + Abs(v)) \div 3000
            [] OTHER -> IF Linear THEN 25 + Abs(v) \div 1000 ELSE 60 + Abs(v) \div 100
(* the precision of the recorded predictions does not decide this one *)
NeedsPreds == w.cfg.objective = "ece" \/ (~Linear /\ w.cfg.objective # "marginal_log_likelihood")
Unclear(e) == IF w.cfg.objective = "ece" THEN \E i \in 1..NP : OnEdge(Conf(e)[i])
              ELSE \E i \in 1..Len(e.s) : e.s[i] < 400 \/ Abs(e.m[i] - Targets[i]) > 200000 \/ Abs(e.m[i] - Targets[i]) \div 20 > e.s[i] \/ e.s[i] > 200000
ObjV(e) == IF e.err # "" THEN "objective-raised-" \o e.err
           ELSE IF e.t6 < 9000 \/ e.t6 > 110000000 THEN "ok"
           ELSE IF NeedsPreds /\ e.perr # "" THEN "constructor-raised-" \o e.perr
           ELSE IF NeedsPreds /\ Unclear(e) THEN "ok"
           ELSE IF Near(e.v, Want(e), Tol(Want(e))) THEN "ok" ELSE w.cfg.objective \o "-is-not-its-definition"
(* ---------------------------------------------------------------- search *)
SearchEv(e) == s' = e /\ n' = e.size /\ pat' = e.pat /\ max' = 0 /\ outs' = <<>> /\ inc' = 0 /\ pc' = "run" /\ chosen' = 0
LogAt(k) == GridLog(s.lo, s.hi, s.size, k)
EvalV(e) == IF pc # "run" \/ MustStop THEN "evaluated-after-the-search-must-stop"
            ELSE IF e.keys # <<"prior_prec">> THEN "prior-arguments-malformed"
            ELSE IF ~Near(e.log, LogAt(Len(outs) + 1), 2) THEN "not-the-configured-grid"
            ELSE "ok"
Minimal(k) == \A j \in 1..Len(outs) : outs[k] <= outs[j]
ReturnV(e) == IF e.err # "" THEN "raised-" \o e.err
              ELSE IF e.keys # <<"prior_prec">> THEN "prior-arguments-malformed"
              ELSE IF outs = <<>> \/ ~MustStop THEN "stopped-without-reason"
              ELSE IF \E k \in 1..Len(outs) : Near(e.log, LogAt(k), 2) /\ Minimal(k) THEN "ok"
              ELSE "not-the-best-evaluated-candidate"
(* without observing the search: the best point of the whole grid *)
PlainV(e) == IF e.err # "" THEN "raised-" \o e.err
   ELSE IF e.keys # <<"prior_prec">> THEN "prior-arguments-malformed"
   ELSE LET Val(k) == Want([t6 |-> e.t6s[k]])
            is == {k \in 1..e.size : Near(e.log, GridLog(e.lo, e.hi, e.size, k), 2)}
        IN  IF is = {} THEN "not-a-grid-point"
            ELSE LET vs == TLCEval([k \in 1..e.size |-> Val(k)])  b == CHOOSE k \in is : TRUE
                 IN  IF \A k \in 1..e.size : vs[b] <= vs[k] + 2 * Tol(vs[k]) THEN "ok" ELSE "not-the-best-candidate"
(* the returned constructor at a prior: mean and variance *)
PredictV(e) == IF e.err # "" THEN "constructor-raised-" \o e.err
   ELSE IF \A c \in 1..C : Near(e.m[c], U * F(e.x)[c], 10 + Abs(F(e.x)[c])) THEN
        IF \A c \in 1..C : LET p == P6(w.d[Par(c)], e.t6)  v == FMul(e.s[c], e.s[c], U)     \* s^2 p = j^2
                               vp == IF p < 200000 THEN FMul(v, RDiv(p, 10), 100000) ELSE FMul(v, RDiv(p, 1000), 1000)
                           IN  e.s[c] < 400 \/ e.s[c] > 200000 \/ p > 110000000 \/ Near(vp, U * JAt(e.x, c) * JAt(e.x, c), 30 + (U * JAt(e.x, c) * JAt(e.x, c)) \div 100)
        THEN "ok" ELSE "constructor-deviation"
   ELSE "constructor-mean"
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
RejectV(e) == IF e.err = "ValueError" THEN "ok" ELSE "accepted-" \o e.what
Other(e) == CASE e.ev = "Obj" -> ObjV(e) [] e.ev = "Plain" -> PlainV(e) [] e.ev = "Predict" -> PredictV(e)
              [] e.ev = "Same" -> SameV(e) [] e.ev = "Reject" -> IF e.cfg = <<>> \/ ~Supported(e.cfg[1]) THEN RejectV(e) ELSE "rejected-a-supported-combination"
              [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.ev = "Begin" -> w' = e /\ loss' = (IF e.mll THEN SumLoss(e.L, e.mod, e.th, e.xs, e.ys) ELSE 0) /\ UNCHANGED <<s, n, pat, max, outs, inc, pc, chosen>>
              [] e.ev = "Search" -> SearchEv(e) /\ UNCHANGED <<w, loss>>
              [] e.ev = "Eval" -> /\ UNCHANGED <<w, loss, s>> /\ Verdict(e, EvalV(e))
                                  /\ IF EvalV(e) = "ok" THEN Evaluate(e.rank) ELSE UNCHANGED <<n, pat, max, outs, inc, pc, chosen>>
              [] e.ev = "Return" -> /\ UNCHANGED <<w, loss, s>> /\ Verdict(e, ReturnV(e))
                                    /\ IF ReturnV(e) = "ok" THEN Return ELSE UNCHANGED <<n, pat, max, outs, inc, pc, chosen>>
              [] OTHER -> UNCHANGED <<w, loss, s, n, pat, max, outs, inc, pc, chosen>> /\ Verdict(e, Other(e))
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
