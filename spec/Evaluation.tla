---------------------------- MODULE Evaluation ----------------------------
(* Evaluations of metrics over a dataset: given whole, or pulled batch by   *)
(* batch from a stream. While a stream prepares a batch, other evaluations  *)
(* may run to completion (nesting). Evaluations share the metric            *)
(* collections and datasets of the caller.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES stack,  \* open evaluations, innermost last
          evs,    \* id -> [ds, form, coll, red, pos, open]
          sizes   \* dataset -> number of points
evars == <<stack, evs, sizes>>
Streams == {"gen", "api-stream"}
Top == stack[Len(stack)]
IsStream(i) == evs[i].form \in Streams
Room(i) == sizes[evs[i].ds] - evs[i].pos
CanOpen == IF stack = <<>> THEN TRUE ELSE IsStream(Top)
Open(o) == /\ CanOpen /\ UNCHANGED sizes
           /\ stack' = Append(stack, o.id)
           /\ evs' = [i \in DOMAIN evs \cup {o.id} |-> IF i = o.id THEN [ds |-> o.ds, form |-> o.form, coll |-> o.coll, red |-> o.red, pos |-> 0, open |-> TRUE] ELSE evs[i]]
CanPull(i, m) == stack # <<>> /\ Top = i /\ IsStream(i) /\ m > 0 /\ m <= Room(i)
Pull(i, m) == /\ CanPull(i, m) /\ UNCHANGED <<stack, sizes>>
              /\ evs' = [evs EXCEPT ![i].pos = @ + m]
CanClose(i) == stack # <<>> /\ Top = i /\ (IsStream(i) => Room(i) = 0)
Close(i) == /\ CanClose(i) /\ UNCHANGED sizes
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ evs' = [evs EXCEPT ![i].open = FALSE, ![i].pos = sizes[evs[i].ds]]
(* the answer of an evaluation: a function of the collection, the dataset   *)
(* and the reduction only; rows(m, p) is metric m of point p                *)
Rows(n, val(_)) == TLCEval([p \in 1..n |-> val(p)])
Reduced(red, rows) == CASE red \in {"identity", "concat"} -> rows
   [] red = "flip" -> [p \in 1..Len(rows) |-> rows[Len(rows) + 1 - p]]
   [] red = "last" -> <<rows[Len(rows)]>>
   [] red = "sum" -> <<[c \in 1..Len(rows[1]) |-> LET RECURSIVE S(_)
                                                      S(p) == IF p = 0 THEN 0 ELSE rows[p][c] + S(p - 1)
                                                  IN  S(Len(rows))]>>
   [] red = "max" -> <<[c \in 1..Len(rows[1]) |-> CHOOSE v \in {rows[p][c] : p \in 1..Len(rows)} : \A p \in 1..Len(rows) : rows[p][c] <= v]>>
OverPoints(red) == red \in {"identity", "concat", "flip"}
===========================================================================
