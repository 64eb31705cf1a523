-------------------------- MODULE TraceStreaming --------------------------
(* Recorded streams. "Step" is one call of the reduction (result returned), *)
(* "Final" the value of the pass, "Map"... observations of streamed linear  *)
(* products with chains of input maps ins (outermost last) and output maps  *)
(* outs. Observed numbers carry 3 decimals. A leaf of an observation is     *)
(* [sh, v]; leaf forms: "rows" (all columns), "col" (first column, rank 1), *)
(* "scal" (batch total of the first column, rank 0).                        *)
EXTENDS Streaming, TraceLib
VARIABLES keep, us, ys, l, skip
tvars == <<svars, keep, us, ys, l, skip>>
TInit == /\ l = 1 /\ skip = FALSE /\ rows = <<<<0>>>> /\ cuts = <<1>> /\ kind = "sum" /\ Fresh
         /\ keep = TRUE /\ us = <<>> /\ ys = <<>>
Keep == UNCHANGED <<svars, keep, us, ys>>
Begin(e) == /\ rows' = e.rows /\ cuts' = e.cuts /\ kind' = e.kind /\ keep' = e.keep /\ us' = e.us /\ ys' = e.ys
            /\ pos' = 0 /\ cnt' = 0 /\ acc' = <<>> /\ skip' = FALSE

(* one leaf of the result, given the new accumulator a and counts c (samples), k (batches) *)
LeafV(o, form, tr, a, c, k) ==
  LET tot == a[1]
      \* expected content x c (mean) or content (others), as a flat vector
      cont == CASE form = "rows" -> (IF kind = "concat" /\ tr THEN Flat(Transp(a)) ELSE Flat(a))
                [] form = "col" -> [i \in 1..Len(a) |-> a[i][1]]
                [] form = "scal" -> <<tot[1]>>
      den == IF kind # "mean" THEN 1 ELSE IF form = "scal" THEN k ELSE c
      sh == CASE kind = "concat" -> (IF form = "rows" THEN (IF tr THEN <<D, c>> ELSE <<c, D>>) ELSE <<c>>)
              [] kind = "sum" -> (IF form = "rows" THEN (IF keep THEN (IF tr THEN <<D, 1>> ELSE <<1, D>>) ELSE <<D>>)
                                  ELSE (IF keep THEN <<1>> ELSE <<>>))
              [] OTHER -> (IF form = "rows" THEN <<D>> ELSE <<>>)
  IN IF o.sh # sh THEN "shape"
     ELSE IF ~SaneV(o.v, 1000000) THEN "value"
     ELSE IF NearV(ScaleV(den, o.v), ScaleV(1000, cont), den) THEN "ok" ELSE "value"
ObsV(e, a, c, k, tag) ==
  IF e.err # "" THEN tag \o "-raised-" \o e.err
  ELSE IF Len(e.out) # Len(e.forms) THEN tag \o "-structure"
  ELSE LET bad == {i \in 1..Len(e.out) : LeafV(e.out[i], e.forms[i], e.tr, a, c, k) # "ok"} IN
       IF bad = {} THEN "ok" ELSE tag \o "-" \o LeafV(e.out[CHOOSE i \in bad : TRUE], e.forms[CHOOSE i \in bad : TRUE], e.tr, a, c, k)
StepV(e) == IF pos >= Len(cuts) THEN "more-steps-than-batches"
            ELSE ObsV(e, Fold(acc, BatchRows(pos + 1)), cnt + cuts[pos + 1], pos + 1, "step")
FinalV(e) == IF e.stepped /\ pos # Len(cuts) THEN "batches-skipped"
             ELSE ObsV(e, Whole, N, Len(cuts), "pass")
(* streamed linear products *)
Chain(ms, n) == FoldLeft(LAMBDA a, B : MatMul(a, B), IdM(n), ms)
MapMatrix(e) == LET n == Len(us[1]) IN
   MatMul(FoldLeft(LAMBDA a, B : MatMul(B, a), IdM(n), e.outs), MatMul(TotalMap(us, ys, n), Chain(e.ins, n)))
MapV(e) == IF e.err # "" THEN "product-raised-" \o e.err
           ELSE LET A == MapMatrix(e) IN
             CASE e.form = "mv" -> (IF NearV(e.out, ScaleV(1000, MatVec(A, e.v)), 4) THEN "ok" ELSE "streamed-product")
               [] e.form = "dense" -> (IF NearV(e.out, ScaleV(1000, Flat(A)), 4) THEN "ok" ELSE "streamed-matrix")
               [] e.form = "diag" -> (IF NearV(e.out, ScaleV(1000, DiagM(A)), 4) THEN "ok" ELSE "streamed-diagonal")
EmptyV(e) == IF e.err = "" THEN "empty-loader-accepted" ELSE "ok"
PrimV(e) == \* the reduction primitive on a single value returns it unchanged first, and does not modify its operands
            IF e.ok THEN "ok" ELSE "operand-modified"
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin" THEN Begin(e)
            ELSE IF skip THEN Keep /\ UNCHANGED skip
            ELSE LET v == CASE e.ev = "Step" -> StepV(e) [] e.ev = "Final" -> FinalV(e) [] e.ev = "Map" -> MapV(e)
                            [] e.ev = "Empty" -> EmptyV(e) [] e.ev = "Same" -> PrimV(e)
                            [] OTHER -> "unexpected-" \o e.ev
                 IN /\ Verdict(e, v) /\ skip' = (v # "ok" /\ e.ev = "Step")
                    /\ UNCHANGED <<keep, us, ys>>
                    /\ IF e.ev = "Step" /\ v = "ok" THEN Batch
                       ELSE IF e.ev = "Final" /\ e.stepped /\ v = "ok" THEN Restart
                       ELSE UNCHANGED svars
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
