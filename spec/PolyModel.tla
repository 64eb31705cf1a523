---------------------------- MODULE PolyModel ----------------------------
(* Models whose outputs are integer polynomials of the parameters and the  *)
(* inputs, so that Jacobians and second derivatives are exact integers.    *)
(* A model is a sequence (one entry per output) of sequences of monomials  *)
(*   [c |-> coefficient, xs |-> <<input indices>>, ps |-> <<param indices>>]*)
(* th: flat parameters (canonical order), x: flat input.                   *)
EXTENDS LA

ProdAt(v, is) == FoldLeft(LAMBDA a, i : a * v[i], 1, is)
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

MonoVal(m, th, x) == m.c * ProdAt(x, m.xs) * ProdAt(th, m.ps)
(* derivative with respect to parameter i *)
MonoD(m, th, x, i) ==
  m.c * ProdAt(x, m.xs) *
    SumSeq([k \in 1..Len(m.ps) |-> IF m.ps[k] = i THEN ProdAt(th, Del(m.ps, k)) ELSE 0])
(* second derivative with respect to parameters i and j *)
MonoDD(m, th, x, i, j) ==
  m.c * ProdAt(x, m.xs) *
    SumSeq([k \in 1..Len(m.ps) |-> IF m.ps[k] # i THEN 0 ELSE
       LET r == Del(m.ps, k) IN
       SumSeq([n \in 1..Len(r) |-> IF r[n] = j THEN ProdAt(th, Del(r, n)) ELSE 0])])

Outputs(mod, th, x) == TLCEval([c \in 1..Len(mod) |->
    SumSeq([k \in 1..Len(mod[c]) |-> MonoVal(mod[c][k], th, x)])])
Jac(mod, th, x) == TLCEval([c \in 1..Len(mod) |-> TLCEval([i \in 1..Len(th) |->
    SumSeq([k \in 1..Len(mod[c]) |-> MonoD(mod[c][k], th, x, i)])])])
Hess(mod, th, x, c) == TLCEval([i \in 1..Len(th) |-> TLCEval([j \in 1..Len(th) |->
    SumSeq([k \in 1..Len(mod[c]) |-> MonoDD(mod[c][k], th, x, i, j)])])])
LinearInParams(mod) == \A c \in 1..Len(mod) : \A k \in 1..Len(mod[c]) : Len(mod[c][k].ps) <= 1
===========================================================================
