--------------------------- MODULE MCGridSearch ---------------------------
EXTENDS GridSearch, TLC, Json
CONSTANTS NMax, Vals, Pats, Maxs, Emit
Init == \E n0 \in 1..NMax, p0 \in Pats, m0 \in Maxs : GInit(n0, p0, m0)
Next == (\E o \in Vals : Evaluate(o)) \/ Return
Spec == Init /\ [][Next]_gvars /\ WF_gvars(Next)
Terminates == <>(pc \in {"done", "error"})
(* every terminal state is one complete behaviour (outs is its history) *)
EmitBehaviour == Emit /\ pc \in {"done", "error"} =>
    PrintT("GEN|" \o ToJson([n |-> n, pat |-> pat, max |-> max, outs |-> outs, chosen |-> chosen]))
===========================================================================
