---------------------------- MODULE MCEvidence ----------------------------
(* Evidence of small models whose samples are summed one by one in any      *)
(* order; the representations of the curvature agree. Scenarios.            *)
EXTENDS Evidence, Json
CONSTANTS Emit
VARIABLES hs, ms, a, th, kind, todo, loss
vars == <<hs, ms, a, th, kind, todo, loss>>
Mono(c, xs, ps) == [c |-> c, xs |-> xs, ps |-> ps]
Mod == <<<<Mono(1, <<1>>, <<1>>), Mono(-1, <<>>, <<2, 2>>)>>, <<Mono(2, <<>>, <<1, 2>>)>>>>
Xs == <<<<0>>, <<1>>, <<-2>>>>
Ys(k) == IF k = "ce" THEN <<<<4, 0>>, <<1, 3>>, <<0, 4>>>> ELSE <<<<0, 1>>, <<2, -1>>, <<1, 1>>>>
LossOf(k) == [kind |-> k, K |-> 2, S |-> 4, w |-> <<2, 1, 3>>]
Bases == {<<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<1, -1>>>>, <<<<2, -1>>, <<1, 2>>>>, <<<<1, 2>>>>, <<<<0, 1>>>>}
Quarters == {1, 4, 6}
Init == /\ hs \in Bases /\ ms \in [1..Len(hs) -> {0, 1, 3}] /\ a \in [t : Quarters \cup {40}, s : Quarters, lsf : Quarters]
        /\ th \in {<<0, 0>>, <<1, -2>>} /\ kind \in {"mse", "ce", "bce", "custom"} /\ todo = 1..Len(Xs) /\ loss = 0
Add(i) == i \in todo /\ todo' = todo \ {i} /\ loss' = loss + Loss1(LossOf(kind), Outputs(Mod, th, Xs[i]), Ys(kind)[i]) /\ UNCHANGED <<hs, ms, a, th, kind>>
Next == \E i \in todo : Add(i)
Spec == Init /\ [][Next]_vars
C == FoldLeft(LAMBDA acc, k : AddM(acc, ScaleM(ms[k], [i \in 1..2 |-> ScaleV(hs[k][i], hs[k])])), ZeroM(2, 2), [k \in 1..Len(hs) |-> k])
AnyOrder == todo = {} => loss = SumLoss(LossOf(kind), Mod, th, Xs, Ys(kind))
(* dense, low-rank and (where it is diagonal) diagonal log-determinants agree *)
Agree == Near(LnDetDense(C, a), LnDetTerms(hs, ms, 2, a), 25) /\ (C[1][2] = 0 => Near(LnDetDense(C, a), LnDetDiag(DiagM(C), a), 25))
(* without curvature only the prior of the fitted parameters is left, whatever its normalisation *)
Flat0 == (todo = {} /\ ms = [k \in 1..Len(hs) |-> 0] /\ a.lsf = 4) => Near(Evidence(loss, th, a, 0, LnDetDense(C, a)), -RDiv(loss, 2) - HalfNorm(th, a, 0), 8)
(* rescaling curvature and prior together *)
Rescale == todo = {} /\ th = <<0, 0>> => \A e \in {-3, 2} : Near(Evidence(loss, th, a, e, LnDetDense(C, a)), Evidence(loss, th, a, 0, LnDetDense(C, a)), 8)
(* more curvature, less evidence *)
Mono1 == todo = {} => Evidence(loss, th, a, 0, LnDetDense(C, a)) <= Evidence(loss, th, a, 0, LnDetDense(ZeroM(2, 2), a)) + 5
Classes == kind \in {"ce", "bce"} /\ todo = {} => LET s == SumLoss(LossOf(kind), Mod, th, Xs, Ys(kind)) IN kind = "ce" => s >= -3
(* ------------------------------------------------------------- scenarios *)
Reps == {"full", "diagonal", "terms", "all", "est-full", "est-diagonal", "est-lanczos", "joint", "spectral"}
Cases == {[rep |-> r, loss |-> k, target |-> t, extra |-> x, mode |-> m] :
            r \in Reps, k \in {"mse", "ce", "bce", "custom"}, t \in {"index", "full"}, x \in {"none", "sigma", "lsf", "both"}, m \in {"plain", "jit", "vmap"}}
GenInit == hs = <<<<0, 1>>>> /\ ms = <<0>> /\ a = [t |-> 1, s |-> 1, lsf |-> 1] /\ th = <<0, 0>> /\ kind = "mse" /\ todo = 1..Len(Xs) /\ loss = 0
EmitAll == Emit /\ todo = 1..Len(Xs) => \A c \in Cases : (c.loss # "ce" => c.target = "full") => PrintT("GEN|" \o ToJson(c))
===========================================================================
