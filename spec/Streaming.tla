---------------------------- MODULE Streaming ----------------------------
(* A dataset of N samples is cut into consecutive batches; every batch is  *)
(* mapped by a function and folded into (result, state) by a reduction.    *)
(* Sample i contributes the integer row rows[i]. The function returns the  *)
(* rows of the batch ("sum", "concat", "mean") or their total ("add").     *)
EXTENDS LA
VARIABLES rows,   \* contribution of every sample, in order
          cuts,   \* batch sizes
          kind,   \* "sum" | "add" | "concat" | "mean"
          pos,    \* batches processed
          cnt,    \* samples seen
          acc     \* total of the rows, or their concatenation
svars == <<rows, cuts, kind, pos, cnt, acc>>

D == Len(rows[1])
N == SumSeq(cuts)
Fresh == pos = 0 /\ cnt = 0 /\ acc = <<>>
BatchRows(k) == SubSeq(rows, SumSeq(SubSeq(cuts, 1, k - 1)) + 1, SumSeq(SubSeq(cuts, 1, k)))
Fold(a, b) == IF kind = "concat" THEN a \o b
              ELSE LET t == SumV(b, D) IN IF a = <<>> THEN <<t>> ELSE <<AddV(a[1], t)>>
Batch == /\ pos < Len(cuts)
         /\ acc' = Fold(acc, BatchRows(pos + 1))
         /\ cnt' = cnt + cuts[pos + 1]
         /\ pos' = pos + 1
         /\ UNCHANGED <<rows, cuts, kind>>
Restart == pos = Len(cuts) /\ pos' = 0 /\ cnt' = 0 /\ acc' = <<>> /\ UNCHANGED <<rows, cuts, kind>>
(* one pass over everything *)
Whole == IF kind = "concat" THEN rows ELSE <<SumV(rows, D)>>
EqualsOnePass == pos = Len(cuts) => acc = Whole /\ cnt = N
PrefixExact == pos > 0 => acc = IF kind = "concat" THEN SubSeq(rows, 1, cnt) ELSE <<SumV(SubSeq(rows, 1, cnt), D)>>
---------------------------------------------------------------------------
(* additive linear products: sample i is the rank-one map x |-> u (y.x)     *)
Outer(u, v) == TLCEval([i \in 1..Len(u) |-> ScaleV(u[i], v)])
TotalMap(us, ys, n) == FoldLeft(LAMBDA a, i : AddM(a, Outer(us[i], ys[i])), ZeroM(n, n), [i \in 1..Len(us) |-> i])
===========================================================================
