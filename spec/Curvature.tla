---------------------------- MODULE Curvature ----------------------------
(* Gauss-Newton and Hessian products of a summed training loss.            *)
(* A sample is [x, y, w]: input, target and, for the classification losses, *)
(* the integer weights of its class probabilities (p = w/S; the logits are  *)
(* ln w up to a constant, whatever the polynomial part of the model).       *)
(* Targets of these losses are integers on the same scale S.                *)
(* All curvatures are integers on the scale Scale(loss).                    *)
EXTENDS PolyModel
(* loss: [kind |-> "mse" | "none" | "ce" | "bce" | "custom", S, C (classes per group), terms] *)

Scale(L) == IF L.kind \in {"ce", "bce"} THEN L.S * L.S ELSE 1
SameGroup(L, i, j) == (i - 1) \div L.C = (j - 1) \div L.C

(* Hessian of the loss in the outputs *)
LossHess(L, z, s) ==
  LET n == Len(z) IN
  CASE L.kind = "mse" -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 2 ELSE 0]]
    [] L.kind = "none" -> IdM(n)
    [] L.kind = "bce" -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN s.w[i] * (L.S - s.w[i]) ELSE 0]]
    [] L.kind = "ce" -> [i \in 1..n |-> [j \in 1..n |->
          IF ~SameGroup(L, i, j) THEN 0 ELSE (IF i = j THEN L.S * s.w[i] ELSE 0) - s.w[i] * s.w[j]]]
    [] L.kind = "custom" -> Hess(<<L.terms>>, z, s.y, 1)
(* gradient of the loss in the outputs, same scale *)
LossGrad(L, z, s) ==
  LET n == Len(z) IN
  CASE L.kind = "mse" -> [i \in 1..n |-> 2 * (z[i] - s.y[i])]
    [] L.kind = "none" -> ZeroV(n)
    [] L.kind \in {"ce", "bce"} -> [i \in 1..n |-> L.S * (s.w[i] - s.y[i])]
    [] L.kind = "custom" -> Jac(<<L.terms>>, z, s.y)[1]
(* contribution of one sample *)
GGNOf(mod, L, th, s) ==
  LET J == Jac(mod, th, s.x)
      z == Outputs(mod, th, s.x)
  IN MatMul(Transp(J), MatMul(LossHess(L, z, s), J))
HessOf(mod, L, th, s) ==
  LET z == Outputs(mod, th, s.x)
      g == LossGrad(L, z, s)
      n == Len(th)
  IN AddM(GGNOf(mod, L, th, s),
          FoldLeft(LAMBDA a, c : AddM(a, ScaleM(g[c], Hess(mod, th, s.x, c))), ZeroM(n, n), [c \in 1..Len(z) |-> c]))
(* of a dataset: the sum over the samples with the given indices *)
SumOver(f(_), idx, n) == FoldLeft(LAMBDA a, i : AddM(a, f(i)), ZeroM(n, n), idx)
GGN(mod, L, th, data, idx) == SumOver(LAMBDA i : GGNOf(mod, L, th, data[i]), idx, Len(th))
Hessian(mod, L, th, data, idx) == SumOver(LAMBDA i : HessOf(mod, L, th, data[i]), idx, Len(th))
Quad(M, v) == Dot(v, MatVec(M, v))
===========================================================================
