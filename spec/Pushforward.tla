--------------------------- MODULE Pushforward ---------------------------
(* Predictions of a weight-space Gaussian. A world is a model (its value f *)
(* and Jacobian J at the fitted parameters, or its values at the weight     *)
(* samples), a weight scale L and noise vectors E. A prediction is built by *)
(* a list of functions, each adding its entry from the entries left by its  *)
(* predecessors: this machine has the freedom the code has (a variance may  *)
(* be read off a covariance that is already there, a deviation computes the *)
(* variance it needs, ...). Agreement: every entry always equals its        *)
(* definition, whichever were requested and in whichever order.             *)
EXTENDS LA
VARIABLES kind,   \* "lin" / "nonlin"
          world,  \* [f, J, L, E, ens]
          todo,   \* functions still to run
          done,   \* functions run
          res     \* entry name -> value
uvars == <<kind, world, todo, done, res>>

OutN == Len(world.f)
NS == Len(world.E)
(* definitions, as integers: covariances of ensembles are multiplied by n^2, means and samples by n *)
Unit == IF kind = "lin" THEN 1 ELSE NS
CovUnit == IF kind = "lin" THEN 1 ELSE NS * NS
LinCov == LET A == MatMul(world.J, world.L) IN MatMul(A, Transp(A))
LinSample(i) == AddV(world.f, MatVec(world.J, MatVec(world.L, world.E[i])))
EnsSum == SumV(world.ens, OutN)
EnsCov == LET d == TLCEval([i \in 1..NS |-> SubV(ScaleV(NS, world.ens[i]), EnsSum)])      \* n * deviation
          IN  TLCEval([a \in 1..OutN |-> TLCEval([b \in 1..OutN |-> SumSeq([i \in 1..NS |-> d[i][a] * d[i][b]])])])
                                                                                          \* n^3 * cov
Sample(i) == IF kind = "lin" THEN LinSample(i) ELSE world.ens[i]
MeanDef == IF kind = "lin" THEN world.f ELSE EnsSum
CovDef == IF kind = "lin" THEN LinCov ELSE EnsCov
VarDef == DiagM(CovDef)
Def(e) == CASE e = "pred_mean" -> MeanDef [] e = "pred_cov" -> CovDef [] e = "pred_var" -> VarDef
            [] e = "pred_std" -> VarDef     \* the squared deviation
            [] e = "samples" -> [i \in 1..NS |-> Sample(i)]
Has(e) == e \in DOMAIN res
With(r, e, v) == [x \in DOMAIN r \cup {e} |-> IF x = e THEN v ELSE r[x]]
(* one coordinate at a time, without forming the covariance *)
VarDirect == IF kind = "lin"
             THEN [k \in 1..OutN |-> LET a == MatVec(Transp(world.L), world.J[k]) IN Dot(a, a)]
             ELSE [k \in 1..OutN |-> LET s == SumSeq([i \in 1..NS |-> world.ens[i][k]])
                                         s2 == SumSeq([i \in 1..NS |-> world.ens[i][k] * world.ens[i][k]])
                                     IN NS * NS * s2 - NS * s * s]
DoMean == res' = With(res, "pred_mean", MeanDef)
DoCov == res' = With(res, "pred_cov", CovDef)
VarOf(r) == IF "pred_cov" \in DOMAIN r THEN DiagM(r["pred_cov"]) ELSE VarDirect
DoVar == res' = With(res, "pred_var", VarOf(res))
DoStd == IF Has("pred_var") THEN res' = With(res, "pred_std", res["pred_var"])
         ELSE \/ res' = With(res, "pred_std", VarDirect)
              \/ res' = With(With(res, "pred_var", VarOf(res)), "pred_std", VarOf(res))
DoSamples == res' = With(res, "samples", [i \in 1..NS |-> Sample(i)])
Step(fn) == CASE fn = "pred_mean" -> DoMean [] fn = "pred_cov" -> DoCov [] fn = "pred_var" -> DoVar
              [] fn = "pred_std" -> DoStd [] fn = "samples" -> DoSamples
Run == /\ todo # <<>> /\ Step(Head(todo))
       /\ todo' = Tail(todo) /\ done' = Append(done, Head(todo)) /\ UNCHANGED <<kind, world>>

Agreement == \A e \in DOMAIN res : res[e] = Def(e)
Requested == \A k \in 1..Len(done) : done[k] \in DOMAIN res
Consistent == /\ VarDirect = VarDef /\ IsSym(CovDef)
              /\ \A k \in 1..OutN : VarDef[k] >= 0
(* a model linear in its parameters: both kinds have the same samples *)
LinearCoincides == world.linear => \A i \in 1..NS : world.ens[i] = LinSample(i)
NeverChanges == [][\A e \in DOMAIN res : res'[e] = res[e]]_uvars
===========================================================================
