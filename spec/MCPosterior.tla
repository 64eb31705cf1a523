--------------------------- MODULE MCPosterior ---------------------------
EXTENDS Posterior, Json
CONSTANTS MaxReq, Emit
VARIABLES hs, ms
vars == <<pvars, hs, ms>>
Dirs == {<<<<1, 0>>>>, <<<<1, 1>>>>, <<<<2, 1>>, <<-1, 2>>>>, <<<<0, 1>>, <<1, 0>>>>, << <<1, 2, 2>>, <<2, 1, -2>> >>, << <<1, 1, 0>> >>, << <<1, -1, 0>>, <<1, 1, 0>>, <<0, 0, 1>> >>}
Args == {[t |-> 4, s |-> 4, lsf |-> 4], [t |-> 1, s |-> 8, lsf |-> 4], [t |-> 12, s |-> 2, lsf |-> 8]}
Init == \E d \in Dirs : /\ hs = d /\ ms \in [1..Len(d) -> {0, 1, 3}]
                        /\ C = FromTerms(d, ms, Len(d[1])) /\ posts = <<>> /\ reqs = <<>>
Next == /\ Len(reqs) < MaxReq /\ UNCHANGED <<hs, ms>>
        /\ \/ \E a \in Args : Len(posts) < 3 /\ Condition(a)
           \/ \E op \in {"cov", "scale"}, k \in 1..Len(posts) : Request(op, k)
Spec == Init /\ [][Next]_vars
LowRankAgrees == \A k \in 1..Len(posts) : LowRankInverse(hs, ms, posts[k])
Symmetric == IsSym(C)
EmitSession == Emit /\ Len(reqs) = MaxReq /\ hs = <<<<1, 0>>>> /\ ms = <<1>> =>
    PrintT("GEN|" \o ToJson([ops |-> [i \in 1..Len(reqs) |-> [op |-> reqs[i][1], k |-> reqs[i][2]]], args |-> posts]))
GenInit == hs = <<<<1, 0>>>> /\ ms = <<1>> /\ C = FromTerms(hs, ms, 2) /\ posts = <<>> /\ reqs = <<>>
===========================================================================
