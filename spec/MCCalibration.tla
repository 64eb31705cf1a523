-------------------------- MODULE MCCalibration --------------------------
(* Every configuration, resolved and searched over a small grid.            *)
EXTENDS Calibration, GridSearch, Json
CONSTANTS Emit
VARIABLES cfg, phase
vars == <<n, pat, max, outs, inc, pc, chosen, cfg, phase>>
(* a regression world: residuals, Jacobians, one parameter of curvature d *)
Rs == <<2, -3, 1>>
Js == <<1, 2, -2>>
Cands == <<10000, 100000, 1000000, 10000000, 100000000>>
Ps(t6) == [i \in 1..3 |-> P6(cfg.d, t6)]
Cs == <<351000, 702000, 940000, 410000>>
Obj(k) == LET t6 == Cands[k] IN
  CASE cfg.objective = "nll" -> NllOf(Rs, Js, Ps(t6)) [] cfg.objective = "chi_squared" -> ChiOf(Rs, Js, Ps(t6))
    [] cfg.objective = "marginal_log_likelihood" -> -MllOf(3 * U, <<2>>, <<cfg.d>>, t6)
    [] cfg.objective = "ece" -> EceOf([i \in 1..4 |-> Cs[i] - 20000 * k], <<1, 0, 1, 0>>)
Configs == [objective : Objectives, predictive : PredictiveKinds, push : {"linear", "nonlinear"}, d : {0, 1, 4}]
Init == cfg \in Configs /\ phase = "new" /\ \E p \in 0..2 : GInit(Len(Cands), p, 0)
Resolve == phase = "new" /\ phase' = (IF Supported(cfg) THEN "search" ELSE "rejected") /\ UNCHANGED <<n, pat, max, outs, inc, pc, chosen, cfg>>
Search == phase = "search" /\ (Evaluate(Obj(Len(outs) + 1)) \/ Return) /\ UNCHANGED <<cfg, phase>>
Next == Resolve \/ Search
Spec == Init /\ [][Next]_vars
(* the returned candidate is best among the evaluated ones *)
Best == pc = "done" => \A j \in 1..Len(outs) : Obj(chosen) <= Obj(j)
Evaluated == \A j \in 1..Len(outs) : outs[j] = Obj(j)
RejectedIff == (phase = "rejected" => ~Supported(cfg)) /\ (phase = "search" => Supported(cfg))
AllSearched == (pc = "done" /\ pat = 0) => Len(outs) = Len(Cands)
(* the formulas agree with the other definitions of this specification *)
D8(x) == 8 * x
Formulas == phase = "new" => \A t6 \in {Cands[3], Cands[4]} :
   LET p == P6(cfg.d, t6)
       sd == [i \in 1..3 |-> Sqrt(RDiv((Js[i] * Js[i]) * M6, RDiv(p, U)))]
   IN  /\ Near(NllOf(Rs, Js, Ps(t6)), NllGiven(ScaleV(U, Rs), sd, <<0, 0, 0>>), 60 + NllOf(Rs, Js, Ps(t6)) \div 200)
       /\ Near(ChiOf(Rs, Js, Ps(t6)), ChiGiven(ScaleV(U, Rs), sd, <<0, 0, 0>>), 60 + ChiOf(Rs, Js, Ps(t6)) \div 100)
       /\ (cfg.d = 0 /\ t6 = M6 => Near(NllOf(Rs, Js, Ps(t6)), Nll(ScaleV(8, Rs), [i \in 1..3 |-> 8 * Abs(Js[i])], <<0, 0, 0>>, TRUE), 10))
       /\ LET q == (4 * t6) \div M6  a == [t |-> q, s |-> 4, lsf |-> 4]
          IN  Near(MllOf(3 * U, <<2>>, <<cfg.d>>, t6), Evidence(3 * U, <<2>>, a, 0, LnDetDiag(<<cfg.d>>, a)), 20)
EceAgrees == phase = "new" => \A k \in 0..3 : LET cs == [i \in 1..4 |-> (64 * (3 * i + k)) + (7 * i)]  rs == <<1, 0, 1, 1>>
   IN  Near(EceOf([i \in 1..4 |-> (cs[i] * 15625) \div 16], rs), ECE(cs, rs, 15), 6)
(* ------------------------------------------------------------- scenarios *)
Cases == [objective : Objectives, predictive : PredictiveKinds, push : {"linear", "nonlinear"},
          method : {"grid", "plain", "custom"}, form : {"tuple", "list", "dict"}, jit : BOOLEAN, spell : {"enum", "lower", "upper"}]
GenInit == cfg = [objective |-> "nll", predictive |-> "none", push |-> "linear", d |-> 0] /\ phase = "gen" /\ GInit(1, 0, 0)
EmitAll == Emit /\ phase = "gen" => \A c \in Cases : PrintT("GEN|" \o ToJson([c EXCEPT !.method = c.method]))
===========================================================================
