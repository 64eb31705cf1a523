--------------------------- MODULE MCLinearMap ---------------------------
EXTENDS LinearMap, Json
CONSTANTS Entries, Dims, Emit
Mats(m, n) == [1..m -> [1..n -> Entries]]
Init == /\ \E d \in Dims : A \in Mats(d[1], d[2])
        /\ bs \in 0..(Len(A[1]) + 1) /\ what \in {"dense", "diag"}
        /\ (what = "diag" => Len(A) = Len(A[1]))
        /\ done = 0 /\ acc = <<>>
Spec == Init /\ [][ExtractChunk]_mvars /\ WF_mvars(ExtractChunk)
ChunkIndependent == Reproduces
Finishes == <>(done = N)
Columns == done = N /\ what = "dense" => \A j \in 1..N : Col(Result, j) = Image(A, UnitV(N, j))
EntQ == {-1, 0, 2}
EntG == {-1, 2}
DimsQ == {<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<3, 2>>}
DimsT == {<<1, 1>>, <<2, 2>>, <<1, 4>>, <<4, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
DimsG == {<<1, 1>>, <<2, 2>>, <<3, 1>>, <<1, 3>>, <<2, 3>>}
EmitJob == Emit /\ done = 0 => PrintT("GEN|" \o ToJson([A |-> A, bs |-> bs, what |-> what]))
===========================================================================
