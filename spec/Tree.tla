------------------------------- MODULE Tree -------------------------------
(* Nested containers of arrays. A tree is                                   *)
(*   [t |-> "leaf", id |-> k, sh |-> <<..>>]      array leaf number k       *)
(*   [t |-> "seq",  c |-> <<trees>>]              list or tuple             *)
(*   [t |-> "dict", k |-> <<keys>>, c |-> <<trees>>]  keys in insertion order*)
(*   [t |-> "none"]                               no leaves                 *)
(* Leaf ids follow insertion order; the canonical (flattening) order visits *)
(* dictionaries by increasing key and sequences left to right. Contents of  *)
(* a tree are given by vals: vals[id] is the leaf's row-major content.      *)
EXTENDS LA

SortedIdx(ks) == SortSeq([i \in 1..Len(ks) |-> i], LAMBDA a, b : ks[a] < ks[b])

RECURSIVE LeafNodes(_)
LeafNodes(t) ==
  CASE t.t = "leaf" -> <<t>>
    [] t.t = "seq" -> FoldLeft(LAMBDA a, b : a \o LeafNodes(b), <<>>, t.c)
    [] t.t = "dict" -> FoldLeft(LAMBDA a, i : a \o LeafNodes(t.c[i]), <<>>, SortedIdx(t.k))
    [] OTHER -> <<>>
(* canonical order of leaf ids, sizes and offsets *)
Order(t) == LET ns == LeafNodes(t) IN TLCEval([i \in 1..Len(ns) |-> ns[i].id])
Shapes(t) == LET ns == LeafNodes(t) IN TLCEval([i \in 1..Len(ns) |-> ns[i].sh])
Sizes(t) == LET s == Shapes(t) IN TLCEval([i \in 1..Len(s) |-> Prod(s[i])])
Size(t) == SumSeq(Sizes(t))
Offset(t, i) == SumSeq(SubSeq(Sizes(t), 1, i - 1))

Flatten(t, vals) == LET o == Order(t) IN
    TLCEval(FoldLeft(LAMBDA a, i : a \o vals[i], <<>>, o))
(* inverse: contents by id *)
Unflatten(t, flat) == LET o == Order(t)
                          s == Sizes(t)
                      IN TLCEval([id \in 1..Len(o) |->
                            LET i == CHOOSE j \in 1..Len(o) : o[j] = id
                            IN  SubSeq(flat, Offset(t, i) + 1, Offset(t, i) + s[i])])
(* split the middle axis of a pre x P x post array (row-major) over the leaves *)
UnravelAt(t, pre, post, flat) == LET o == Order(t)  s == Sizes(t)  P == Size(t) IN
    TLCEval([id \in 1..Len(o) |-> LET i == CHOOSE j \in 1..Len(o) : o[j] = id
                                      off == Offset(t, i) IN
        TLCEval([m \in 1..(pre * s[i] * post) |->
            LET z == m - 1
                c == z % post
                b == (z \div post) % s[i]
                a == z \div (post * s[i])
            IN flat[(a * P + off + b) * post + c + 1]])])
UnravelRows(t, B, flat) == UnravelAt(t, 1, B, flat)
UnravelCols(t, A, flat) == UnravelAt(t, A, 1, flat)
Basis(t, j) == Unflatten(t, UnitV(Size(t), j))
EyeContents(t) == LET P == Size(t) IN UnravelCols(t, P, Flat(IdM(P)))

ShapeOf(t, id) == LET ns == LeafNodes(t) IN ns[CHOOSE i \in 1..Len(ns) : ns[i].id = id].sh
NumLeaves(t) == Len(LeafNodes(t))
MapT(vals, f(_)) == TLCEval([id \in 1..Len(vals) |-> TLCEval([i \in 1..Len(vals[id]) |-> f(vals[id][i])])])
Map2T(a, b, f(_, _)) == TLCEval([id \in 1..Len(a) |-> TLCEval([i \in 1..Len(a[id]) |-> f(a[id][i], b[id][i])])])
===========================================================================
