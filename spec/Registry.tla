----------------------------- MODULE Registry -----------------------------
(* The registries of curvature and calibration methods. A curvature method  *)
(* is one function per stage; a function is identified by a tag <<id, f>>,  *)
(* where f is the factor by which the functions of this specification       *)
(* change what the built-in function of their family returns (0: built-in). *)
EXTENDS FixedPoint
Stages == <<"create", "precision", "state", "scale", "cov", "mll">>
SetS == {Stages[i] : i \in 1..6}
VARIABLES reg,    \* name -> stage -> tag
          cal,    \* calibration name -> id
          past    \* registrations so far
rvars == <<reg, cal, past>>
BuiltIn == [s \in SetS |-> <<0, 1>>]
Given(o) == {o.give[i][1] : i \in 1..Len(o.give)}
GiveTag(o, s) == LET g == CHOOSE i \in 1..Len(o.give) : o.give[i][1] = s IN <<o.give[g][2], o.give[g][3]>>
Missing(o) == SetS \ Given(o)
Accepted(o) == o.default # "" \/ Missing(o) = {}
(* what a registration stores: the supplied functions, else those its default has now *)
Entry(o) == [s \in SetS |-> IF s \in Given(o) THEN GiveTag(o, s) ELSE reg[o.default][s]]
Register(o) == /\ past' = Append(past, o) /\ UNCHANGED cal
               /\ reg' = IF Accepted(o) THEN [n \in DOMAIN reg \cup {o.nm} |-> IF n = o.nm THEN Entry(o) ELSE reg[n]] ELSE reg
RegisterCal(o) == past' = Append(past, o) /\ UNCHANGED reg /\ cal' = [n \in DOMAIN cal \cup {o.nm} |-> IF n = o.nm THEN o.id ELSE cal[n]]
(* ------------------------------------------------- behaviour of a method *)
(* on a curvature with eigenvalues c, prior precision t, loss scaling k:    *)
(* X = numerator over denominator k of the precision the state stands for   *)
F(n, s) == reg[n][s][2]
PrecNum(n, c, t) == (c * F(n, "create") + t) * F(n, "precision")
StateNum(n, c, t) == PrecNum(n, c, t) * F(n, "state")
CovWant(n, c, t, k, v) == RDiv(U * F(n, "cov") * v * k, StateNum(n, c, t))
ScaleSqWant(n, c, t, k) == RDiv(U * F(n, "scale") * F(n, "scale") * k, StateNum(n, c, t))
MllWant(n, cs, t, k) == F(n, "mll") * RDiv(SumSeq([i \in 1..Len(cs) |-> Ln5(t) - Ln5(PrecNum(n, cs[i], t)) + Ln5(k)]), 20)
(* the calls the functions of this specification see, stage by stage *)
Spied(n, ss) == LET Seen(s) == reg[n][s][1] # 0 IN SelectSeq(ss, Seen)
===========================================================================
