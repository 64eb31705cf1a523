---------------------------- MODULE Containers ----------------------------
(* A client holding a container: the state is the tree, two contents a, b   *)
(* of it and a flat vector; the operations are the library's. Every         *)
(* operation is specified on the flat vector and lifted leaf by leaf.       *)
EXTENDS Tree
VARIABLES tree, a, b
cvars == <<tree, a, b>>

(* leafwise arithmetic, equal to the operation on the flat vector *)
Arith(op, x, y, k) ==
  CASE op = "add" -> Map2T(x, y, LAMBDA u, v : u + v)
    [] op = "sub" -> Map2T(x, y, LAMBDA u, v : u - v)
    [] op = "neg" -> MapT(x, LAMBDA u : -u)
    [] op = "mul" -> MapT(x, LAMBDA u : k * u)
    [] op = "ones" -> MapT(x, LAMBDA u : 1)
    [] op = "zeros" -> MapT(x, LAMBDA u : 0)
    [] op = "invert" -> MapT(x, LAMBDA u : -1 - u)
    [] op = "invertbool" -> MapT(x, LAMBDA u : 1 - u)
    [] op = "sqrt" -> MapT(x, LAMBDA u : ISqrt(u))
LiftsToFlat(op, k) == \* the flat-vector law of the leafwise operations
    Flatten(tree, Arith(op, a, b, k)) = Arith(op, <<Flatten(tree, a)>>, <<Flatten(tree, b)>>, k)[1]

(* reduction of the middle axis of pre x n x post content *)
AxisOf(v, n, post, p, c) == [i \in 1..n |-> v[(p * n + i - 1) * post + c + 1]]
ReduceMid(v, pre, n, post, f(_)) ==
    TLCEval([m \in 1..(pre * post) |-> f(AxisOf(v, n, post, (m - 1) \div post, (m - 1) % post))])
PreOf(sh, ax) == Prod(SubSeq(sh, 1, ax))
PostOf(sh, ax) == Prod(SubSeq(sh, ax + 2, Len(sh)))
(* statistics of a sequence, numbers with 3 decimals *)
Mean3(s) == RDiv(1000 * SumSeq(s), Len(s))
SqDev(s) == Len(s) * SumSeq([i \in 1..Len(s) |-> s[i] * s[i]]) - SumSeq(s) * SumSeq(s)  \* n * sum of squared deviations
Var3(s, ddof) == RDiv(1000 * SqDev(s), Len(s) * (Len(s) - ddof))
Cov3(s, t, ddof) == RDiv(1000 * (Len(s) * Dot(s, t) - SumSeq(s) * SumSeq(t)), Len(s) * (Len(s) - ddof))
(* 3-decimal v is the square root of 3-decimal w *)
IsSqrt3(v, w) == v >= 0 /\ v < 40000 /\ Near(RDiv(v * v, 1000), w, 2 + (v \div 500))

(* the functions used to observe wrapping *)
FTree(v) == TLCEval([id \in 1..Len(v) |-> TLCEval([i \in 1..Len(v[id]) |-> 2 * v[id][i] + id])])
FFlat(v) == TLCEval([i \in 1..Len(v) |-> v[Len(v) + 1 - i] + i])
===========================================================================
