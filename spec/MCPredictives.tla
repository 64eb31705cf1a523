-------------------------- MODULE MCPredictives --------------------------
(* Laws of the formulas on a grid of logits, variances and covariances, and *)
(* the scenarios: which functions run before the predictive, in which order *)
EXTENDS Predictives, Json
CONSTANTS Emit, N, Logits, Vars
LogitSet == {-25000, -3000, 0, 12345, 40000}
VarSet == {1000, 9000, 77777}
LogitBig == LogitSet \cup {-60000, 500, 21000}
VarBig == VarSet \cup {300, 25000}
VARIABLES m, v
vars == <<m, v>>
Init == m \in [1..N -> Logits] /\ v \in [1..N -> Vars]
(* the laws are evaluated on every grid point *)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Diag(x) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN x[i] ELSE 0]]
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => p[i] # p[j]}
Zero == [i \in 1..N |-> 0]
Rank == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN v[i] ELSE Min2(v[i], v[j]) \div 2]]
Dists == IsDist(Softmax(m)) /\ IsDist(MeanField0(m, v)) /\ (InRange(m) => IsDist(Bridge(m, v))) /\ (BridgeCRange(m, v) => IsDist(BridgeC(m, v))) /\ IsDist(MonteCarlo(<<m, v>>))
ZeroVariance == /\ NearV(MeanField0(m, Zero), Softmax(m), 1) /\ NearV(MeanField1(m, Zero), Softmax(m), 12) /\ NearV(MeanField2(m, Diag(Zero)), Softmax(m), 12)
                /\ NearV(MonteCarlo(<<m, m>>), Softmax(m), 0)
Relabel == \A p \in Perms :
    /\ NearV(MeanField0(Permute(m, p), Permute(v, p)), Permute(MeanField0(m, v), p), 1)
    /\ NearV(MeanField1(Permute(m, p), Permute(v, p)), Permute(MeanField1(m, v), p), 0)
    /\ NearV(MeanField2(Permute(m, p), PermuteM(Rank, p)), Permute(MeanField2(m, Rank), p), 0)
    /\ InRange(m) => NearV(Bridge(Permute(m, p), Permute(v, p)), Permute(Bridge(m, v), p), 1)
DiagonalAgrees == NearV(MeanField2(m, Diag(v)), MeanField1(m, v), 0)
(* adding a constant to all logits changes nothing *)
Shift == LET s == [i \in 1..N |-> m[i] + 7000] IN NearV(Softmax(s), Softmax(m), 0) /\ (InRange(m) => NearV(Bridge(s, v), Bridge(m, v), 0))
(* ------------------------------------------------------------- scenarios *)
Pre == {"pred_mean", "pred_cov", "pred_var", "pred_std", "samples"}
Lists == {s \in UNION {[1..k -> Pre] : k \in 0..3} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
Types == {"laplace_bridge", "laplace_bridge_plain", "mean_field_0", "mean_field_1", "mean_field_2", "mc", "default"}
EmitAll == Emit /\ m = [i \in 1..N |-> CHOOSE x \in Logits : TRUE] /\ v = [i \in 1..N |-> CHOOSE x \in Vars : TRUE] =>
   \A k \in {"lin", "nonlin"}, s \in Lists, t \in Types : PrintT("GEN|" \o ToJson([kind |-> k, pre |-> s, type |-> t]))
===========================================================================
