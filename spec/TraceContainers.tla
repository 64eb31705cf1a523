-------------------------- MODULE TraceContainers --------------------------
(* Recorded container operations of the implementation against Containers.  *)
(* Observed numbers carry 3 decimals (x1000); container observations are    *)
(* records [ok, sh, v]: structure kept, leaf shapes and contents by leaf id.*)
EXTENDS Containers, TraceLib
VARIABLES l, skip
tvars == <<cvars, l, skip>>
TInit == l = 1 /\ skip = FALSE /\ tree = [t |-> "none"] /\ a = <<>> /\ b = <<>>

K3(v) == ScaleV(1000, v)
NL == NumLeaves(tree)
(* observed container o equals contents x (integers) with leading/own shapes sh(id) *)
TreeV(o, x, sh(_), tag) ==
  IF ~o.ok THEN tag \o "-structure"
  ELSE IF Len(o.v) # NL THEN tag \o "-leaf-count"
  ELSE IF \E id \in 1..NL : o.sh[id] # sh(id) THEN tag \o "-leaf-shape"
  ELSE IF \E id \in 1..NL : ~NearV(o.v[id], K3(x[id]), 1) THEN tag \o "-contents"
  ELSE "ok"
OwnSh(id) == ShapeOf(tree, id)
FlatV(o, v, tag) == IF o.sh # <<Len(v)>> THEN tag \o "-shape"
                    ELSE IF ~NearV(o.v, K3(v), 1) THEN tag \o "-contents" ELSE "ok"
P == Size(tree)

WrapV(e) ==  \* argument number e.arg of three is converted, the others and the keyword pass unchanged
  LET seen == IF e.others = e.wantothers /\ e.kwok THEN "ok" ELSE "other-arguments-changed"
      in_ == Flatten(tree, a)
      r == CASE e.form = "flat-both" -> FlatV(e.out, Flatten(tree, FTree(Unflatten(tree, in_))), "result")
             [] e.form = "tree-both" -> TreeV(e.out, Unflatten(tree, FFlat(Flatten(tree, a))), OwnSh, "result")
             [] e.form = "in-only" -> TreeV(e.out, FTree(Unflatten(tree, in_)), OwnSh, "result")
             [] e.form = "out-only" -> FlatV(e.out, Flatten(tree, FTree(a)), "result")
             [] e.form = "none" -> TreeV(e.out, FTree(a), OwnSh, "result")
  IN IF seen # "ok" THEN seen ELSE r

NormAx(ax, n) == IF ax < 0 THEN ax + n ELSE ax
DropDim(sh, ax, keep) == IF keep THEN [i \in 1..Len(sh) |-> IF i = ax + 1 THEN 1 ELSE sh[i]]
                         ELSE SubSeq(sh, 1, ax) \o SubSeq(sh, ax + 2, Len(sh))
StatSh(e, id) == LET sh == OwnSh(id) IN
   IF e.axis = 99 THEN (IF e.keep THEN [i \in 1..Len(sh) |-> 1] ELSE <<>>)
   ELSE DropDim(sh, NormAx(e.axis, Len(sh)), e.keep)
StatOf(e, id, f(_)) == LET sh == OwnSh(id) IN
   IF e.axis = 99 THEN <<f(a[id])>>
   ELSE LET ax == NormAx(e.axis, Len(sh)) IN ReduceMid(a[id], PreOf(sh, ax), sh[ax + 1], PostOf(sh, ax), f)
StatV(e) ==
  IF ~e.out.ok \/ Len(e.out.v) # NL THEN "structure"
  ELSE IF \E id \in 1..NL : e.out.sh[id] # StatSh(e, id) THEN "leaf-shape"
  ELSE IF e.op = "mean" THEN
     (IF \A id \in 1..NL : NearV(e.out.v[id], StatOf(e, id, Mean3), 2) THEN "ok" ELSE "mean")
  ELSE LET w(id) == StatOf(e, id, LAMBDA s : Var3(s, e.ddof)) IN
     IF e.op = "var" THEN (IF \A id \in 1..NL : NearV(e.out.v[id], w(id), 2) THEN "ok" ELSE "variance")
     ELSE IF \A id \in 1..NL : \A i \in 1..Len(w(id)) : IsSqrt3(e.out.v[id][i], w(id)[i]) THEN "ok" ELSE "deviation"
(* covariance per leaf; variables are rows (or columns when ~rowvar) *)
CovOf(e, id) == LET sh == OwnSh(id)
                    M == IF Len(sh) = 1 THEN <<a[id]>> ELSE
                         IF e.rowvar THEN Rows(a[id], sh[1], sh[2]) ELSE Transp(Rows(a[id], sh[1], sh[2]))
                IN Flat([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> Cov3(M[i], M[j], e.ddof)]])
CovSh(e, id) == LET sh == OwnSh(id) IN
   IF Len(sh) = 1 THEN <<>> ELSE IF e.rowvar THEN <<sh[1], sh[1]>> ELSE <<sh[2], sh[2]>>
CovV(e) == IF ~e.out.ok \/ Len(e.out.v) # NL THEN "structure"
           ELSE IF \E id \in 1..NL : Prod(e.out.sh[id]) # Prod(CovSh(e, id)) THEN "covariance-shape"
           ELSE IF \A id \in 1..NL : NearV(e.out.v[id], CovOf(e, id), 2) THEN "ok" ELSE "covariance"
(* leaf content rows lo+1..hi of the leading axis *)
SliceV(e) ==
  LET hi(id) == Min2(e.hi, OwnSh(id)[1])
      lo(id) == Min2(e.lo, hi(id))
      row(id) == Prod(Tail(OwnSh(id)))
  IN IF ~e.out.ok \/ Len(e.out.v) # NL THEN "structure"
     ELSE IF \E id \in 1..NL : e.out.sh[id] # <<hi(id) - lo(id)>> \o Tail(OwnSh(id)) THEN "slice-shape"
     ELSE IF \A id \in 1..NL : NearV(e.out.v[id], K3(SubSeq(a[id], lo(id) * row(id) + 1, hi(id) * row(id))), 1) THEN "ok" ELSE "slice"
(* partial product: every leaf (.., n) times a vector of length n *)
PmvV(e) ==
  LET n == Len(e.vec)
      out(id) == LET m == Len(a[id]) \div n IN [i \in 1..m |-> Dot(SubSeq(a[id], (i - 1) * n + 1, i * n), e.vec)]
  IN IF ~e.out.ok \/ Len(e.out.v) # NL THEN "structure"
     ELSE IF \E id \in 1..NL : e.out.sh[id] # SubSeq(OwnSh(id), 1, Len(OwnSh(id)) - 1) THEN "partial-product-shape"
     ELSE IF \A id \in 1..NL : NearV(e.out.v[id], K3(out(id)), 1) THEN "ok" ELSE "partial-product"
PartialFlat(x) == \* rows of all leaves stacked in canonical order
    Flatten(tree, x)

(* blocks e.b[i][j]: contribution of leaf i (canonical order) to leaf j *)
BlocksV(e) ==
  LET o == Order(tree)
      ss == Sizes(tree)
      pos(id) == CHOOSE i \in 1..NL : o[i] = id
      out(j) == FoldLeft(LAMBDA acc, i : AddV(acc, [r \in 1..ss[j] |-> Dot(SubSeq(e.b[i][j], (r - 1) * ss[i] + 1, r * ss[i]), a[o[i]])]),
                         ZeroV(ss[j]), [i \in 1..NL |-> i])
  IN TreeV(e.out, TLCEval([id \in 1..NL |-> out(pos(id))]), OwnSh, "blocks")

OpV(e) ==
  CASE e.ev = "Size" -> IF e.n = P THEN "ok" ELSE "size"
    [] e.ev = "Flatten" -> FlatV(e.out, Flatten(tree, a), "flat")
    [] e.ev = "Unflatten" -> TreeV(e.out, Unflatten(tree, e.flat), OwnSh, "container")
    [] e.ev = "RoundTrip" -> TreeV(e.out, a, OwnSh, "container")
    [] e.ev = "Basis" -> TreeV(e.out, Basis(tree, e.j), OwnSh, "basis")
    [] e.ev = "Eye" -> TreeV(e.out, EyeContents(tree), LAMBDA id : <<P>> \o OwnSh(id), "identity")
    [] e.ev = "VecGet" -> IF e.val = 1000 * Flatten(tree, a)[e.j] THEN "ok" ELSE "element-lookup"
    [] e.ev = "Unravel" -> TreeV(e.out, UnravelAt(tree, e.pre, e.post, e.flat),
                              LAMBDA id : e.presh \o OwnSh(id) \o e.postsh, "unravel")
    [] e.ev = "Wrap" -> WrapV(e)
    [] e.ev = "Arith" -> TreeV(e.out, Arith(e.op, a, b, e.k), OwnSh, e.op)
    [] e.ev = "Stat" -> StatV(e)
    [] e.ev = "Cov" -> CovV(e)
    [] e.ev = "Slice" -> SliceV(e)
    [] e.ev = "PartialMatvec" -> PmvV(e)
    [] e.ev = "PartialFlatten" -> IF e.out.sh # <<P \div e.n, e.n>> THEN "partial-flat-shape"
                                  ELSE IF NearV(e.out.v, K3(PartialFlat(a)), 1) THEN "ok" ELSE "partial-flat"
    [] e.ev = "PartialUnflatten" -> TreeV(e.out, Unflatten(tree, e.flat), OwnSh, "partial-container")
    [] e.ev = "AllClose" -> IF e.out = (e.x = e.y) THEN "ok" ELSE "comparison"
    [] e.ev = "Sqrt" -> TreeV(e.out, Arith("sqrt", e.sq, e.sq, 0), OwnSh, "sqrt")
    [] e.ev = "Blocks" -> BlocksV(e)
    [] e.ev = "Cumsum" -> IF e.out = [i \in 1..Len(e.xs) |-> SumSeq(SubSeq(e.xs, 1, i))] THEN "ok" ELSE "running-sums"
    [] e.ev = "List" -> IF e.out = [i \in 1..Len(e.order) |-> LET x == e.xs[e.order[i] + 1] IN <<x * x, x, -x>>] THEN "ok" ELSE "list-element"
    [] e.ev = "Bool" -> IF e.s \in {"True", "False"} THEN (IF e.out = e.s /\ e.err = "" THEN "ok" ELSE "boolean")
                        ELSE IF e.out = "none" /\ e.err = "ValueError" THEN "ok" ELSE "invalid-boolean-accepted"
    [] e.ev = "Unchanged" -> IF e.ok THEN "ok" ELSE "operand-modified"
    [] OTHER -> "unexpected-" \o e.ev

TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN tree' = e.tree /\ a' = e.a /\ b' = e.b /\ skip' = FALSE
            ELSE /\ UNCHANGED cvars
                 /\ IF skip THEN UNCHANGED skip
                    ELSE LET v == OpV(e) IN Verdict(e, v) /\ skip' = FALSE
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
