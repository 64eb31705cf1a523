------------------------------ MODULE MCTree ------------------------------
(* All small containers: laws of flattening, and generation of the trees.   *)
EXTENDS Containers, Json
CONSTANTS LeafShapes, Emit
VARIABLES vals, flat, pc
vars == <<cvars, vals, flat, pc>>

Lf(s) == [t |-> "leaf", id |-> 0, sh |-> s]
SeqN(cs) == [t |-> "seq", c |-> cs]
DictN(ks, cs) == [t |-> "dict", k |-> ks, c |-> cs]
Leaves0 == {Lf(s) : s \in LeafShapes}
KeyOrders(n) == CASE n = 1 -> {<<4>>} [] n = 2 -> {<<1, 2>>, <<2, 1>>} [] OTHER -> {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}
Cont(X, n) == {SeqN(f) : f \in [1..n -> X]} \cup UNION {{DictN(k, f) : f \in [1..n -> X]} : k \in KeyOrders(n)}
D1 == UNION {Cont(Leaves0, n) : n \in 1..3}
Small == {SeqN(<<Lf(<<2>>), Lf(<<>>)>>), DictN(<<2, 1>>, <<Lf(<<1>>), Lf(<<2>>)>>), DictN(<<1>>, <<Lf(<<2, 2>>)>>), SeqN(<<>>), [t |-> "none"]}
D2 == UNION {{SeqN(<<x, y>>), SeqN(<<y, x>>), DictN(<<2, 1>>, <<x, y>>), DictN(<<1, 2>>, <<y, x>>)} : x \in Leaves0, y \in Small}
D3 == {DictN(<<3, 1, 2>>, <<x, y, Lf(s)>>) : x \in Small, y \in Small, s \in LeafShapes}

RECURSIVE Number(_, _)   \* assign leaf ids in insertion order: <<tree, next>>
Number(t, k) ==
  CASE t.t = "leaf" -> <<[t EXCEPT !.id = k], k + 1>>
    [] t.t \in {"seq", "dict"} ->
         LET r == FoldLeft(LAMBDA x, y : LET z == Number(y, x[2]) IN <<Append(x[1], z[1]), z[2]>>, <<<<>>, k>>, t.c)
         IN  <<[t EXCEPT !.c = r[1]], r[2]>>
    [] OTHER -> <<t, k>>
Trees == {Number(t, 1)[1] : t \in Leaves0 \cup D1 \cup D2 \cup D3}
Init == /\ tree \in {t \in Trees : Size(t) > 0}
        /\ flat = [i \in 1..Size(tree) |-> 10 + i] /\ vals = <<>> /\ pc = "flat"
        /\ a = Unflatten(tree, [i \in 1..Size(tree) |-> ((7 * i) % 11) - 4])
        /\ b = Unflatten(tree, [i \in 1..Size(tree) |-> ((5 * i) % 7) - 2])
DoUnflatten == pc = "flat" /\ vals' = Unflatten(tree, flat) /\ pc' = "tree" /\ UNCHANGED <<cvars, flat>>
DoFlatten == pc = "tree" /\ flat' = Flatten(tree, vals) /\ pc' = "done" /\ UNCHANGED <<cvars, vals>>
Next == DoUnflatten \/ DoFlatten
Spec == Init /\ [][Next]_vars
Bijective == /\ flat = [i \in 1..Size(tree) |-> 10 + i]
             /\ pc # "flat" => Unflatten(tree, Flatten(tree, vals)) = vals
ShapesKept == pc # "flat" => \A id \in 1..NumLeaves(tree) : Len(vals[id]) = Prod(ShapeOf(tree, id))
BasisIsUnit == pc = "done" => \A j \in 1..Size(tree) : Flatten(tree, Basis(tree, j)) = UnitV(Size(tree), j)
EyeRowsAreBasis == pc = "done" => \A j \in 1..Size(tree) : \A id \in 1..NumLeaves(tree) :
    LET s == Prod(ShapeOf(tree, id)) IN SubSeq(EyeContents(tree)[id], (j - 1) * s + 1, j * s) = Basis(tree, j)[id]
ArithmeticIsFlat == pc = "done" => \A op \in {"add", "sub", "neg", "mul", "ones", "zeros", "invert"} : LiftsToFlat(op, 3)
Shp == {<<>>, <<1>>, <<2>>, <<2, 3>>}
ShpT == {<<>>, <<1>>, <<3>>, <<2, 2>>, <<1, 2, 1>>, <<0>>}
EmitTree == Emit /\ pc = "flat" => PrintT("GEN|" \o ToJson(tree))
===========================================================================
