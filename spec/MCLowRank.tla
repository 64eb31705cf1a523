---------------------------- MODULE MCLowRank ----------------------------
(* The Lanczos recursion in exact arithmetic as a state machine: W is the  *)
(* sequence of (unnormalised, integer, primitive) orthogonal directions.   *)
EXTENDS LowRank, Json
CONSTANTS Emit
VARIABLES hs, ms, A, b, W, exhausted, rank, opt
vars == <<hs, ms, A, b, W, exhausted, rank, opt>>
Bases == {<<<<1>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<2, 1>>, <<-1, 2>>>>, << <<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>> >>, << <<1, 1, 0>>, <<1, -1, 0>>, <<0, 0, 1>> >>}
Vecs(n) == {v \in [1..n -> {-1, 0, 1}] : ~IsZero(v)}
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Prim(v) == LET g == FoldLeft(LAMBDA x, y : Gcd(x, Abs(y)), 0, v) IN IF g <= 1 THEN v ELSE [i \in 1..Len(v) |-> v[i] \div g]
Opts == {0}
Init == \E B \in Bases : /\ hs = B /\ ms \in [1..Len(B) -> {0, 1, 2}] /\ A = Operator(hs, ms, Len(B))
                         /\ b \in Vecs(Len(B)) /\ W = <<b>> /\ exhausted = FALSE /\ rank = 0 /\ opt = 0
(* next direction: A w_k minus its components along all previous ones *)
NextDir == LET k == Len(W)
               q == FoldLeft(LAMBDA x, w : x * Dot(w, w), 1, W)
               aw == MatVec(A, W[k])
           IN FoldLeft(LAMBDA acc, j : SubV(acc, ScaleV(Dot(aw, W[j]) * (q \div Dot(W[j], W[j])), W[j])), ScaleV(q, aw), [j \in 1..k |-> j])
Next == /\ ~exhausted /\ UNCHANGED <<hs, ms, A, b, rank, opt>>
        /\ LET d == NextDir IN IF IsZero(d) THEN exhausted' = TRUE /\ UNCHANGED W
                               ELSE W' = Append(W, Prim(d)) /\ UNCHANGED exhausted
Spec == Init /\ [][Next]_vars
Orthogonal == \A i, j \in 1..Len(W) : i < j => Dot(W[i], W[j]) = 0
Tridiagonal == \A i, j \in 1..Len(W) : i + 1 < j => Dot(W[i], MatVec(A, W[j])) = 0
Bounded == Len(W) <= KrylovDim(hs, ms, b)
Exhaustion == exhausted => /\ Len(W) = KrylovDim(hs, ms, b)
(* the restriction to the exhausted space is the operator itself when the non-zero eigenvalues are distinct and b meets all of them *)
Reproduces == exhausted /\ (\A k \in 1..Len(ms) : ms[k] # 0 => Dot(b, hs[k]) # 0) /\ Distinct(hs, ms) =>
   LET q == FoldLeft(LAMBDA x, w : x * Dot(w, w), 1, W)
       \* P A P with P = SUM w w^T / |w|^2, scaled by q^2
       PM == FoldLeft(LAMBDA acc, w : AddM(acc, ScaleM(q \div Dot(w, w), Outer(w))), ZeroM(Len(b), Len(b)), W)
   IN MatMul(PM, A) = ScaleM(q, A)
(* requests: which basis, weights, start vector, rank, options *)
GenInit == /\ hs = <<<<1>>>> /\ A = <<<<0>>>> /\ W = <<>> /\ exhausted = FALSE
           /\ ms \in {<<0>>, <<1>>, <<2>>}       \* 0: distinct, 1: repeated eigenvalues, 2: singular
           /\ b \in {<<0>>, <<1>>, <<2>>, <<3>>} \* 0,1: key; 2: generic b; 3: deficient b
           /\ rank \in {-1, 0, 1, 2}             \* relative to the operator's rank + 1
           /\ opt \in 0..11
GenNext == FALSE /\ UNCHANGED vars
EmitReq == Emit => PrintT("GEN|" \o ToJson([spec |-> ms[1], start |-> b[1], dr |-> rank, opt |-> opt]))
===========================================================================
