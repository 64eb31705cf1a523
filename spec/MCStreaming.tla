--------------------------- MODULE MCStreaming ---------------------------
EXTENDS Streaming, Json
CONSTANTS NMax, Emit
RECURSIVE Comp(_)
Comp(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Comp(n - k)} : k \in 1..n}
RowsOf(n) == [i \in 1..n |-> <<((3 * i * i) % 11) - 4, 2 * i - 5>>]
Init == /\ \E n \in 1..NMax : rows = RowsOf(n) /\ cuts \in Comp(n)
        /\ kind \in {"sum", "add", "concat", "mean"} /\ Fresh
Next == Batch \/ Restart
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
EveryPassEnds == []<>(pos = Len(cuts))
EmitCase == Emit /\ Fresh => PrintT("GEN|" \o ToJson([cuts |-> cuts, kind |-> kind]))
===========================================================================
