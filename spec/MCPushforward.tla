-------------------------- MODULE MCPushforward --------------------------
EXTENDS Pushforward, PolyModel, Json
CONSTANTS Emit, MaxLen
Entries == {"pred_mean", "pred_cov", "pred_var", "pred_std", "samples"}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Lists == UNION {[1..n -> Entries] : n \in 1..MaxLen}
Ok(s) == Distinct(s) \/ Len(s) <= 3
m1 == << <<[c |-> 1, xs |-> <<1>>, ps |-> <<1>>], [c |-> 2, xs |-> <<>>, ps |-> <<2>>]>>, <<[c |-> -1, xs |-> <<>>, ps |-> <<2>>]>> >>
m2 == << <<[c |-> 1, xs |-> <<1>>, ps |-> <<1, 2>>]>>, <<[c |-> 1, xs |-> <<>>, ps |-> <<1, 1>>], [c |-> 3, xs |-> <<>>, ps |-> <<>>]>> >>
Worlds == {[f |-> Outputs(m, th, <<2>>), J |-> Jac(m, th, <<2>>), L |-> L, E |-> E, linear |-> LinearInParams(m),
            ens |-> TLCEval([i \in 1..Len(E) |-> Outputs(m, AddV(th, MatVec(L, E[i])), <<2>>)])] :
              m \in {m1, m2}, th \in {<<1, -2>>, <<0, 3>>}, L \in {<<<<1, 0>>, <<2, 1>>>>, <<<<0, 0>>, <<1, 3>>>>},
              E \in {<<<<1, 0>>>>, <<<<1, -1>>, <<2, 0>>, <<-1, 3>>>>}}
Init == /\ kind \in {"lin", "nonlin"} /\ world \in Worlds /\ todo \in {s \in Lists : Ok(s)} /\ done = <<>> /\ res = [e \in {} |-> 0]
Spec == Init /\ [][Run]_uvars
GenInit == /\ kind \in {"lin", "nonlin"} /\ world = [f |-> <<0>>, J |-> <<<<0>>>>, L |-> <<<<0>>>>, E |-> <<>>, linear |-> TRUE, ens |-> <<>>]
           /\ todo \in {s \in Lists : Ok(s)} /\ done = <<>> /\ res = [e \in {} |-> 0]
GenNext == FALSE /\ UNCHANGED uvars
EmitList == Emit => PrintT("GEN|" \o ToJson([kind |-> kind, fns |-> todo]))
===========================================================================
