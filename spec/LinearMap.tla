---------------------------- MODULE LinearMap ----------------------------
(* A linear map, known only through its action, is turned into a matrix or *)
(* a diagonal by mapping basis vectors in chunks of bs (0: all at once).   *)
(* A maps flat vectors of length N to flat vectors of length M; domain and *)
(* codomain may carry container structures (Tree).                         *)
EXTENDS Tree
VARIABLES A,      \* M x N matrix
          bs,     \* chunk size, 0 = everything at once
          what,   \* "dense" | "diag"
          done,   \* number of basis vectors processed
          acc     \* images of the processed basis vectors (their j-th entry for "diag")
mvars == <<A, bs, what, done, acc>>

N == Len(A[1])
M == Len(A)
Image(B, v) == MatVec(B, v)
Chunk == IF bs = 0 THEN N ELSE Min2(bs, N - done)
ImageOf(j) == LET y == Image(A, UnitV(N, j)) IN IF what = "dense" THEN y ELSE <<y[j]>>
ExtractChunk == /\ done < N
                /\ done' = done + Chunk
                /\ acc' = acc \o [i \in 1..Chunk |-> ImageOf(done + i)]
                /\ UNCHANGED <<A, bs, what>>
Result == IF what = "dense" THEN Transp(acc) ELSE Flat(acc)
Reproduces == done = N => Result = IF what = "dense" THEN A ELSE DiagM(A)
(* containers: the map conjugated by the flatteners *)
OnTrees(B, t, s, x) == Unflatten(s, Image(B, Flatten(t, x)))
===========================================================================
