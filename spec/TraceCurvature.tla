-------------------------- MODULE TraceCurvature --------------------------
(* Recorded curvature products against Curvature's exact integers.          *)
EXTENDS Curvature, Tree, TraceLib
VARIABLES mod, L, th, data, tree, G, H, l, skip
tvars == <<mod, L, th, data, tree, G, H, l, skip>>
K == 4  \* observations are multiples of 1/(K * Scale)
TInit == /\ l = 1 /\ skip = FALSE /\ mod = <<>> /\ L = [kind |-> "none"] /\ th = <<>> /\ data = <<>>
         /\ tree = [t |-> "none"] /\ G = <<>> /\ H = <<>>
(* contributions of the single samples are computed once per scenario *)
Exact(e) == MatVec(FoldLeft(LAMBDA a, i : AddM(a, IF e.which = "ggn" THEN G[i] ELSE H[i]), ZeroM(Len(th), Len(th)), e.idx), e.v)
MvV(e) ==
  IF e.err # "" THEN "product-raised-" \o e.err
  ELSE IF ~e.out.ok \/ Len(e.out.v) # NumLeaves(tree) THEN "product-structure"
  ELSE LET want == Unflatten(tree, ScaleV(e.num * K, Exact(e))) IN
    IF \E id \in 1..Len(e.out.v) : e.out.sh[id] # ShapeOf(tree, id) THEN "product-leaf-shape"
    ELSE IF \E id \in 1..Len(e.out.v) : ~SaneV(e.out.v[id], 100000000) THEN "product-out-of-range"
    ELSE IF \A id \in 1..Len(e.out.v) : NearV(ScaleV(e.den, e.out.v[id]), want[id], e.den + (e.num \div 4)) THEN "ok"
    ELSE "product-value"
LossHessV(e) ==
  IF e.err # "" THEN "loss-hessian-raised-" \o e.err
  ELSE LET s == data[e.s]  z == Outputs(mod, th, s.x) IN
    IF NearV(e.out, ScaleV(K, MatVec(LossHess(L, z, s), e.jv)), 1) THEN "ok" ELSE "loss-hessian-value"
RejectV(e) == IF e.err = "" THEN "invalid-arguments-accepted" ELSE IF e.err # "ValueError" THEN "rejected-with-" \o e.err ELSE "ok"
OpV(e) == CASE e.ev = "Mv" -> MvV(e) [] e.ev = "LossHess" -> LossHessV(e) [] e.ev = "Reject" -> RejectV(e)
            [] OTHER -> "unexpected-" \o e.ev
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN
               /\ mod' = e.mod /\ L' = e.L /\ th' = e.th /\ data' = e.data /\ tree' = e.tree /\ skip' = FALSE
               /\ G' = TLCEval([i \in 1..Len(e.data) |-> GGNOf(e.mod, e.L, e.th, e.data[i])])
               /\ H' = TLCEval([i \in 1..Len(e.data) |-> HessOf(e.mod, e.L, e.th, e.data[i])])
            ELSE /\ UNCHANGED <<mod, L, th, data, tree, G, H>>
                 /\ LET v == OpV(e) IN Verdict(e, v) /\ skip' = FALSE
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
