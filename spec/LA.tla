-------------------------------- MODULE LA --------------------------------
(* Integer vectors, matrices and fixed-point numbers, with the tolerant     *)
(* comparisons used to compare logged (quantised) observations.             *)
(* Observations are clamped to +-10^9 by the harness, so that differences   *)
(* never leave TLC's 32-bit integers; Sane(v, b) guards every product.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, s[1], s)
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* rounded division: nearest integer to a / b, b > 0 *)
RDiv(a, b) == (2 * a + b) \div (2 * b)

Near(a, b, t) == LET d == a - b IN d <= t /\ -d <= t
NearV(u, v, t) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i], t)
NearM(A, B, t) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearV(A[i], B[i], t)
SaneV(v, b) == \A i \in 1..Len(v) : v[i] <= b /\ -b <= v[i]
SaneM(A, b) == \A i \in 1..Len(A) : SaneV(A[i], b)

Dot(u, v) == SumSeq(TLCEval([i \in 1..Len(u) |-> u[i] * v[i]]))
AddV(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
SubV(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
ScaleV(c, v) == TLCEval([i \in 1..Len(v) |-> c * v[i]])
ZeroV(n) == [i \in 1..n |-> 0]
UnitV(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
Col(A, j) == TLCEval([i \in 1..Len(A) |-> A[i][j]])
Transp(A) == IF A = <<>> THEN <<>> ELSE TLCEval([j \in 1..Len(A[1]) |-> Col(A, j)])
MatMul(A, B) == LET BT == Transp(B)
                IN  TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(BT) |-> Dot(A[i], BT[j])])])
AddM(A, B) == TLCEval([i \in 1..Len(A) |-> AddV(A[i], B[i])])
ScaleM(c, A) == TLCEval([i \in 1..Len(A) |-> ScaleV(c, A[i])])
ZeroM(n, m) == [i \in 1..n |-> ZeroV(m)]
IdM(n) == [i \in 1..n |-> UnitV(n, i)]
DiagM(A) == TLCEval([i \in 1..Len(A) |-> A[i][i]])
IsSym(A) == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
SumM(s, n, m) == FoldLeft(LAMBDA a, b : AddM(a, b), ZeroM(n, m), s)
SumV(s, n) == FoldLeft(LAMBDA a, b : AddV(a, b), ZeroV(n), s)

(* rows i and columns j removed *)
DropAt(s, k) == TLCEval([i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]])
Minor(A, i, j) == LET B == DropAt(A, i) IN TLCEval([r \in 1..Len(B) |-> DropAt(B[r], j)])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE SumSeq([j \in 1..Len(A) |->
                 (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * (IF A[1][j] = 0 THEN 0 ELSE Det(Minor(A, 1, j)))])
(* adjugate: A * Adj(A) = Det(A) * I *)
Adj(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |->
              (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))])])

(* reshape a flat row-major sequence into a matrix with m columns *)
Rows(v, n, m) == TLCEval([i \in 1..n |-> SubSeq(v, (i - 1) * m + 1, i * m)])
Flat(A) == FoldLeft(LAMBDA a, b : a \o b, <<>>, A)
Prod(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)

(* integer square root (floor) *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2
                          IN  IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtB(n, 0, 46341)

(* fixed-point product a*b/S for |a|,|b| <= 2*10^5 when S = 10^4 *)
FMul(a, b, S) == LET sa == IF a < 0 THEN -1 ELSE 1
                     x == Abs(a)
                 IN  sa * ((x \div S) * b + ((x % S) * b) \div S)
===========================================================================
