---------------------------- MODULE MCMetrics -----------------------------
(* The binned statistics as an accumulating machine that takes the samples  *)
(* in any order, and laws of the other definitions; the scenarios.          *)
EXTENDS Metrics, Json
CONSTANTS Emit, NS, NR
ConfSet == {0, 300, 700, 900, 1024}
VARIABLES kind, d, todo, acc
vars == <<kind, d, todo, acc>>
Zero(M) == [b \in 1..M |-> <<0, 0, 0>>]
Sets(n) == UNION {[1..k -> ConfSet \X {0, 1}] : k \in 1..n}
(* ascending data only: the machine takes them in every order anyway *)
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1] \/ (s[i][1] = s[i + 1][1] /\ s[i][2] <= s[i + 1][2])
RSets(n) == UNION {[1..k -> {-9, 0, 1, 5, 40} \X {1, 4, 8, 20}] : k \in 1..n}
PSets == {<<64, 0, 0>>, <<0, 32, 32>>, <<16, 16, 32>>, <<21, 22, 21>>, <<1, 62, 1>>, <<40, 0, 24>>}
Init == \/ /\ kind = "bins" /\ \E s \in Sets(NS), M \in {1, 2, 3, 15} : Asc(s) /\ d = <<s, M>> /\ todo = 1..Len(s) /\ acc = Zero(M)
        \/ /\ kind = "reg" /\ todo = {} /\ acc = <<>> /\ \E s \in RSets(NR) : d = <<s>>
        \/ /\ kind = "cls" /\ todo = {} /\ acc = <<>> /\ \E p, q \in PSets, t, u \in 1..3 : d = <<p, q, t, u>>
Take(i) == /\ kind = "bins" /\ i \in todo /\ todo' = todo \ {i}
           /\ LET b == Bin(d[1][i][1], d[2]) IN acc' = [acc EXCEPT ![b] = <<@[1] + 1, @[2] + d[1][i][1], @[3] + d[1][i][2]>>]
           /\ UNCHANGED <<kind, d>>
Next == \E i \in todo : Take(i)
Spec == Init /\ [][Next]_vars
Cs == MapS(LAMBDA i : d[1][i][1], Len(d[1]))
Rs == MapS(LAMBDA i : d[1][i][2], Len(d[1]))
M == d[2]
BinsTyped == kind = "bins" => SumSeq(MapS(LAMBDA b : acc[b][1], M)) = Len(d[1]) - Cardinality(todo)
(* every order of accumulation gives the binned definition *)
Streamed == kind = "bins" /\ todo = {} => \A b \in 1..M :
   /\ BinProp(Cs, M, b) = RDiv(U * acc[b][1], Len(Cs)) /\ BinConf(Cs, M, b) = AvgConf(acc[b][2], acc[b][1])
   /\ BinAcc(Cs, Rs, M, b) = IF acc[b][1] = 0 THEN 0 ELSE RDiv(U * acc[b][3], acc[b][1])
Calibration == kind = "bins" /\ todo = {} => ECE(Cs, Rs, M) <= MCE(Cs, Rs, M) + Len(Cs) + M /\ MCE(Cs, Rs, M) <= U
   /\ Near(SumSeq(MapS(LAMBDA b : BinProp(Cs, M, b), M)), U, M) /\ (M = 1 => Near(ECE(Cs, Rs, M), MCE(Cs, Rs, M), 1))
(* ------------------------------------------------------------ regression *)
R == MapS(LAMBDA i : d[1][i][1], Len(d[1]))
S == MapS(LAMBDA i : d[1][i][2], Len(d[1]))
O == MapS(LAMBDA i : 0, Len(d[1]))
Rev(v) == MapS(LAMBDA i : v[Len(v) + 1 - i], Len(v))
Neg(v) == MapS(LAMBDA i : -v[i], Len(v))
RegLaws == kind = "reg" => \A avg \in BOOLEAN :
   /\ Crps(R, S, O, avg) >= -5 * Len(R) /\ Near(Crps(R, S, O, avg), Crps(Neg(R), S, O, avg), 5 * Len(R)) /\ Crps(Rev(R), Rev(S), O, avg) = Crps(R, S, O, avg)
   \* |r| - s / sqrt pi <= CRPS <= |r|  + s (2 phi(0) - 1 / sqrt pi)
   /\ \A i \in 1..Len(R) : LET c == Crps1(R[i], S[i])  a == Abs(R[i]) * 1250
                           IN  c >= a - RDiv(S[i] * InvSqrtPi, 8) - 10 /\ c <= a + RDiv(S[i] * 2337, 8) + 10
   /\ Nll(Rev(R), Rev(S), O, avg) = Nll(R, S, O, avg) /\ Nll(R, S, O, avg) = Nll(Neg(R), S, O, avg)
   \* nll - chi / 2 is the entropy part, independent of the residuals
   /\ Near(Nll(R, S, O, TRUE) - Chi(R, S, O, TRUE) \div 2, Nll(O, S, O, TRUE), 3)
   /\ Chi(ScaleV(2, R), ScaleV(2, S), O, avg) = Chi(R, S, O, avg)
   /\ Chi(R, MapS(LAMBDA i : 8, Len(R)), O, TRUE) >= 0 /\ LET q == Rmse(R, O)
        IN  (q < 4 * U) => Near(FMul(q, q, U), Chi(R, MapS(LAMBDA i : 8, Len(R)), O, TRUE), 12)
   /\ (R = O) = (Rmse(R, O) = 0)
(* -------------------------------------------------------- classification *)
P == d[1]  
Q == d[2]
ClsLaws == kind = "cls" =>
   /\ ~Infinite(P, P) /\ (~Infinite(P, Q) => CrossEntropy(P, Q) >= CrossEntropy(P, P) - 6)      \* Gibbs
   /\ (P = Q /\ d[3] = d[4] => Near(Brier(<<P, Q>>, <<d[3], d[4]>>), Brier(<<P>>, <<d[3]>>), 1))
   /\ Near(Brier(<<P, Q>>, <<d[3], d[4]>>), Brier(<<Q, P>>, <<d[4], d[3]>>), 0)
   /\ Brier(<<P>>, <<d[3]>>) >= 0 /\ 3 * Brier(<<P>>, <<d[3]>>) <= 2 * U + 6 /\ (P[d[3]] = 64 <=> Brier(<<P>>, <<d[3]>>) = 0)
   /\ \A k \in 1..2 : Accuracy(<<P, Q>>, <<d[3], d[4]>>, k) <= Accuracy(<<P, Q>>, <<d[3], d[4]>>, k + 1)
   /\ Accuracy(<<P, Q>>, <<d[3], d[4]>>, 3) = 100 * U /\ Accuracy(<<P, Q>>, <<d[3], d[4]>>, 1) >= 100 * Mean(ScaleV(U, Correct(<<P, Q>>, <<d[3], d[4]>>)))
(* published values of the distribution function *)
Published == kind = "cls" /\ d[3] = 1 /\ d[4] = 1 /\ d[1] = d[2] =>
             /\ NearV(Simpson, CdfTab, 2) /\ Near(Cdf(U), 8413, 1) /\ Near(Cdf(2 * U), 9772, 1) /\ Near(Cdf(-U \div 2), 3085, 1) /\ Near(Cdf(16449), 9500, 1) /\ Near(Cdf(0), 5000, 0)
             /\ Near(LnRat(10, 1), 23026, 1) /\ Near(LnRat(1, 3), -10986, 1) /\ Near(Crps1(0, 8), 2337, 2)
(* ------------------------------------------------------------- scenarios *)
Modes == {"plain", "keywords", "extra", "jit", "permuted"}
Case(fn, n, c, o, m) == [fn |-> fn, n |-> n, c |-> c, opt |-> o, mode |-> m]
Cases == {Case(f, n, c, o, m) : f \in {"correctness", "brier"}, n \in {1, 2, 7, 33}, c \in {2, 3, 5, 12}, o \in {"index", "onehot"}, m \in Modes}
    \cup {Case("accuracy", n, c, o, m) : n \in {1, 2, 7, 33}, c \in {2, 3, 5, 12}, o \in {"index", "onehot"}, m \in Modes}
    \cup {Case("cross_entropy", n, c, o, m) : n \in {1, 4, 20}, c \in {2, 5, 12}, o \in {"last", "first", "vector"}, m \in Modes}
    \cup {Case(f, n, c, o, m) : f \in {"bins", "ece", "mce", "error_l1", "error_inf"}, n \in {1, 3, 12, 90}, c \in {1, 2, 7, 15, 31}, o \in {"int", "bool", "float"}, m \in Modes}
    \cup {Case(f, n, c, o, m) : f \in {"chi", "chi_zero", "nll", "crps"}, n \in {1, 4, 9, 40}, c \in {0, 1, 2, 3}, o \in {"default", "mean", "sum"}, m \in Modes}
    \cup {Case("rmse", n, c, "default", m) : n \in {1, 4, 9, 40}, c \in {0, 1, 2, 3}, m \in Modes}
    \cup {Case(f, n, 0, "mismatch", "plain") : f \in {"nll", "crps"}, n \in 1..6}
    \cup {Case(f, n, c, "default", "plain") : f \in {"dict", "list"}, n \in {1, 4}, c \in {0, 1}}
EmitAll == Emit /\ kind = "cls" /\ d = <<CHOOSE p \in PSets : TRUE, CHOOSE p \in PSets : TRUE, 1, 1>> => \A x \in Cases : PrintT("GEN|" \o ToJson(x))
===========================================================================
