---------------------------- MODULE GridSearch ----------------------------
(* The prior-precision search: a grid of n points is evaluated in order;    *)
(* the objective's outcome at each point is chosen by the environment.      *)
(* Outcomes are integers; NANV (not a number) and VERR (a value error) are  *)
(* worth infinity, TERR (any other error) must propagate.                   *)
EXTENDS Integers, Sequences, FiniteSets

INFV == 2000000     \* the objective returned +infinity
NINF == -2000000
NANV == 2000001
VERR == 2000002
TERR == 2000003
Eff(o) == IF o \in {NANV, VERR} THEN INFV ELSE o

VARIABLES n,        \* grid size
          pat,      \* patience, 0 = none
          max,      \* maximal number of evaluations, 0 = none
          outs,     \* outcomes so far
          inc,      \* consecutive strict increases so far
          pc,       \* "run" | "done" | "error"
          chosen    \* index returned
gvars == <<n, pat, max, outs, inc, pc, chosen>>

FirstMin(os) == CHOOSE i \in 1..Len(os) :
                  /\ \A j \in 1..Len(os) : Eff(os[i]) <= Eff(os[j])
                  /\ \A j \in 1..(i - 1) : Eff(os[i]) < Eff(os[j])

Exhausted == Len(outs) = n
HitMax == max # 0 /\ Len(outs) >= max
HitPatience == pat # 0 /\ inc >= pat
MustStop == outs # <<>> /\ (Exhausted \/ HitMax \/ HitPatience)

GInit(n0, p0, m0) == /\ n = n0 /\ pat = p0 /\ max = m0
                     /\ outs = <<>> /\ inc = 0 /\ pc = "run" /\ chosen = 0

(* one call of the objective at point Len(outs)+1 *)
Evaluate(o) == /\ pc = "run" /\ ~MustStop /\ Len(outs) < n
               /\ outs' = Append(outs, o)
               /\ inc' = IF outs # <<>> /\ o # TERR /\ Eff(o) > Eff(outs[Len(outs)]) THEN inc + 1 ELSE 0
               /\ pc' = IF o = TERR THEN "error" ELSE "run"
               /\ UNCHANGED <<n, pat, max, chosen>>
(* the search returns *)
Return == /\ pc = "run" /\ MustStop
          /\ chosen' = FirstMin(outs) /\ pc' = "done"
          /\ UNCHANGED <<n, pat, max, outs, inc>>
---------------------------------------------------------------------------
(* the guarantees, stated over the history of outcomes *)
IncreasingAt(k) == /\ k > pat /\ pat # 0
                   /\ \A j \in (k - pat + 1)..k : Eff(outs[j]) > Eff(outs[j - 1])
BestReturned == pc = "done" =>
    /\ \A j \in 1..Len(outs) : Eff(outs[chosen]) <= Eff(outs[j])
    /\ \A j \in 1..(chosen - 1) : Eff(outs[j]) > Eff(outs[chosen])
WithinLimits == Len(outs) <= n /\ (max # 0 => Len(outs) <= max)
StopsOnlyForAReason == pc = "done" =>
    (Len(outs) = n \/ (max # 0 /\ Len(outs) = max) \/ IncreasingAt(Len(outs)))
NeverPastPatience == \A k \in 1..(Len(outs) - 1) : ~IncreasingAt(k)
FailureIsInfinite == pc = "done" /\ (\E j \in 1..Len(outs) : Eff(outs[j]) < INFV) =>
    Eff(outs[chosen]) < INFV
OtherErrorsPropagate == (\E j \in 1..Len(outs) : outs[j] = TERR) <=> pc = "error"
===========================================================================
