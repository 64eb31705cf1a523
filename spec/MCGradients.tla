--------------------------- MODULE MCGradients ---------------------------
(* Gradient ascent of the evidence on the grid of quarters; the derivative  *)
(* formulas against differences of the formulas they belong to. Scenarios.  *)
EXTENDS Gradients, Json
CONSTANTS Emit, TMax
VARIABLES w, a, th, loss, pc
vars == <<w, a, th, loss, pc>>
Bases == {<<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<1, -1>>>>, <<<<2, -1>>, <<1, 2>>>>, <<<<1, 2>>>>, <<>>}
Init == /\ \E b \in Bases : \E m \in [1..Len(b) -> {0, 1, 3}] : w = [hs |-> b, ms |-> m]
        /\ a \in [t : {8, 24}, s : {4, 7}, lsf : {4, 6}, g : {4, 6}]
        /\ th \in {<<0, 0>>, <<1, 0>>, <<1, -2>>} /\ loss \in {0, 37 * U} /\ pc = "go"
Slope == DEvid(w, "t", a, loss, th)
Up == pc = "go" /\ Slope > 0 /\ a.t < TMax /\ a' = [a EXCEPT !.t = @ + 1] /\ pc' = "go" /\ UNCHANGED <<w, th, loss>>
Down == pc = "go" /\ Slope < 0 /\ a.t > 8 /\ DEvid(w, "t", [a EXCEPT !.t = @ - 1], loss, th) < 0 /\ a' = [a EXCEPT !.t = @ - 1] /\ pc' = "go" /\ UNCHANGED <<w, th, loss>>
Stop == pc = "go" /\ ~ENABLED Up /\ ~ENABLED Down /\ pc' = "done" /\ UNCHANGED <<w, a, th, loss>>
Next == Up \/ Down \/ Stop
Spec == Init /\ [][Next]_vars
At(x, d) == [a EXCEPT ![x] = @ + d]
I2 == IdM(2)
(* five-point difference in steps of a quarter: 12 h D = 8 (v1 - v-1) - (v2 - v-2), h = 1/4 *)
Diff(f(_), x) == RDiv(8 * (f(At(x, 1)) - f(At(x, -1))) - (f(At(x, 2)) - f(At(x, -2))), 3)
SlopeOk == Near(Diff(LAMBDA b : Evid(w, b, loss, th), "t"), Slope, 60)
SlopeS == a.s > 3 => Near(Diff(LAMBDA b : Evid(w, b, loss, th), "s"), DEvid(w, "s", a, loss, th), 400)
SlopeL == a.lsf > 3 => Near(Diff(LAMBDA b : Evid(w, b, loss, th), "lsf"), DEvid(w, "l", a, loss, th), 700)
SlopeG == a.g > 5 => Near(Diff(LAMBDA b : Evid(w, b, loss, th), "g"), DEvid(w, "g", a, loss, th), 15000)
CovSlopes == \A i, j \in 1..2 :
   /\ Near(Diff(LAMBDA b : Form(w, "val", b, W, I2[i], I2[j]), "t"), Form(w, "t", a, W, I2[i], I2[j]), 700)
   /\ a.s > 3 => Near(Diff(LAMBDA b : Form(w, "val", b, W, I2[i], I2[j]), "s"), Form(w, "s", a, W, I2[i], I2[j]), 9000)
   /\ a.lsf > 3 => Near(Diff(LAMBDA b : Form(w, "val", b, W, I2[i], I2[j]), "lsf"), Form(w, "l", a, W, I2[i], I2[j]), 40)
(* precision * covariance = identity, precision * d covariance = - covariance *)
C == FoldLeft(LAMBDA acc, k : AddM(acc, ScaleM(w.ms[k], [i \in 1..2 |-> ScaleV(w.hs[k][i], w.hs[k])])), ZeroM(2, 2), [k \in 1..Len(w.hs) |-> k])
V(x) == FormM(w, x, a, U, I2)
Inverts == /\ NearM(MatMul(Prec(C, a), V("val")), ScaleM(a.lsf * U, I2), 300)
           /\ NearM(MatMul(Prec(C, a), V("t")), ScaleM(-4, V("val")), 300)
           /\ NearM(MatMul(Prec(C, a), V("s")), ScaleM(-4, MatMul(C, V("val"))), 400)
           /\ NearM(ScaleM(a.lsf, V("l")), ScaleM(4, V("val")), 20)
(* less variance with more prior precision or curvature *)
Shrinks == \A i \in 1..2 : V("t")[i][i] <= 0 /\ V("s")[i][i] <= 1 /\ V("l")[i][i] >= 0
(* where the ascent ends inside the grid no neighbour is better *)
Optimal == pc = "done" /\ a.t > 8 /\ a.t < TMax => \A d \in {-1, 1} : Evid(w, At("t", d), loss, th) <= Evid(w, a, loss, th) + Abs(Slope) \div 4 + 8
(* ------------------------------------------------------------- scenarios *)
Reps == {"full", "diagonal", "terms", "est-full", "est-diagonal", "est-lanczos"}
What == {"cov", "scale", "evidence", "lin", "nonlin", "objective", "cov", "lin"}
Cases == {[rep |-> r, what |-> q, args |-> x, diff |-> d, mode |-> m] :
            r \in Reps, q \in What, x \in {"prior", "sigma", "all"}, d \in {"rev", "fwd"}, m \in {"plain", "jit", "log"}}
GenInit == w = [hs |-> <<>>, ms |-> <<>>] /\ a = [t |-> 8, s |-> 4, lsf |-> 4, g |-> 4] /\ th = <<0, 0>> /\ loss = 0 /\ pc = "gen"
EmitAll == Emit /\ pc = "gen" => \A c \in Cases : PrintT("GEN|" \o ToJson(c))
===========================================================================
