------------------------------ MODULE Fitting ------------------------------
(* Sessions of one-call fits on one model and dataset. Sample i contributes *)
(* the integer matrix rows[i] (over Den0) to the Gauss-Newton matrix. A fit *)
(* passes over the batches of its data form, scales the total by            *)
(* total/used = num/den and keeps the part its curvature kind represents.   *)
(* Every fit can be conditioned on prior arguments and used at any time.    *)
EXTENDS LA
VARIABLES rows,   \* contribution of every sample, times den0
          den0,   \* common denominator of the contributions
          run,    \* <<>> or the fit in progress <<[kind, num, den, cuts, pos, acc]>>
          fits,   \* finished fits [kind, C, den]: estimate C / den
          posts   \* [fit, t, s, lsf], arguments in units of 1/4
fvars == <<rows, den0, run, fits, posts>>
NP == Len(rows[1])
N == Len(rows)
Keeps(kind, M) == IF kind = "diagonal" THEN [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j THEN M[i][j] ELSE 0]] ELSE M
Total == SumM(rows, NP, NP)
StartFit(kind, num, den, cuts) ==
   /\ run = <<>> /\ SumSeq(cuts) = N
   /\ run' = <<[kind |-> kind, num |-> num, den |-> den, cuts |-> cuts, pos |-> 0, acc |-> ZeroM(NP, NP)]>>
   /\ UNCHANGED <<rows, den0, fits, posts>>
Batch(r) == LET b == SumSeq(SubSeq(r.cuts, 1, r.pos)) IN SumM(SubSeq(rows, b + 1, b + r.cuts[r.pos + 1]), NP, NP)
Pass == /\ run # <<>> /\ run[1].pos < Len(run[1].cuts)
        /\ run' = <<[run[1] EXCEPT !.acc = AddM(@, Batch(run[1])), !.pos = @ + 1]>>
        /\ UNCHANGED <<rows, den0, fits, posts>>
Result(r) == [kind |-> r.kind, C |-> Keeps(r.kind, ScaleM(r.num, r.acc)), den |-> r.den * den0]
Finish == /\ run # <<>> /\ run[1].pos = Len(run[1].cuts)
          /\ fits' = Append(fits, Result(run[1])) /\ run' = <<>>
          /\ UNCHANGED <<rows, den0, posts>>
(* a whole fit at once *)
Fit(kind, num, den) == /\ run = <<>> /\ run' = <<>> /\ UNCHANGED <<rows, den0, posts>>
                       /\ fits' = Append(fits, [kind |-> kind, C |-> Keeps(kind, ScaleM(num, Total)), den |-> den * den0])
Condition(k, t, s, lsf) == /\ run = <<>> /\ k \in 1..Len(fits)
                           /\ posts' = Append(posts, [fit |-> k, t |-> t, s |-> s, lsf |-> lsf])
                           /\ UNCHANGED <<rows, den0, run, fits>>
(* lsf * den * precision: an integer matrix (s C + t den I) *)
Prec(p) == LET f == fits[p.fit] IN AddM(ScaleM(p.s, f.C), ScaleM(p.t * f.den, IdM(NP)))
Num(p) == p.lsf * fits[p.fit].den
(* ------------------------------------------------------------ properties *)
(* whatever the batches, a fit holds the scaled sum over all samples *)
Complete == \A k \in 1..Len(fits) : \E num \in 0..64 : fits[k].C = Keeps(fits[k].kind, ScaleM(num, Total))
FitIsComposition == \A k \in 1..Len(run) : LET r == run[k] IN r.pos = Len(r.cuts) => Result(r).C = Keeps(r.kind, ScaleM(r.num, Total))
PrecInverse == \A k \in 1..Len(posts) : LET A == Prec(posts[k]) IN Det(A) > 0 /\ MatMul(A, Adj(A)) = ScaleM(Det(A), IdM(NP))
Symmetric == \A k \in 1..Len(fits) : IsSym(fits[k].C)
FitsStay == [][\A k \in 1..Len(fits) : fits'[k] = fits[k]]_fvars
PostsStay == [][\A k \in 1..Len(posts) : posts'[k] = posts[k] /\ fits'[posts[k].fit] = fits[posts[k].fit]]_fvars
=============================================================================
