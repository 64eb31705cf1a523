--------------------------- MODULE FixedPoint ----------------------------
(* Real functions on fixed-point numbers: integers in units of 1/U.         *)
EXTENDS LA
U == 10000
Ln2 == 6931         \* ln 2, truncated; LnFix corrects it for multiples
LnMul(n) == (n * 69315) \div 10
(* e^r for |r| <= ln2/2: Taylor to the 6th order *)
ExpSmall(r) == LET r2 == FMul(r, r, U)  r3 == FMul(r2, r, U)  r4 == FMul(r2, r2, U)
               IN  U + r + r2 \div 2 + r3 \div 6 + r4 \div 24 + FMul(r4, r, U) \div 120
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* e^x * U, for x <= 11 U; 0 far below zero *)
Exp(x) == IF x < -16 * U THEN 0
          ELSE LET n == RDiv(10 * x, 69315)
                   e == ExpSmall(x - (IF n >= 0 THEN LnMul(n) ELSE -LnMul(-n)))
               IN  IF n >= 0 THEN e * Pow2(n) ELSE e \div Pow2(-n)
(* square root of x / U in units of 1/U, x <= 20 U *)
RECURSIVE Sqrt(_)
Sqrt(x) == IF x > 20 * U THEN 2 * Sqrt(x \div 4) ELSE ISqrt(x * U)
(* a / b in units of 1/U for |a| <= 200 U *)
Quot(a, b) == LET s == IF a < 0 THEN -1 ELSE 1  x == Abs(a)
              IN  s * ((x \div b) * U + ((x % b) * U) \div b)

(* ------------------------------------------------------------ logarithm  *)
(* ln n in units of 10^-5: n = m 2^k with 2^14 <= m < 2^15, then            *)
(* ln m = ln c + 2 artanh((m - c) / (m + c)) around c = 2^14.5              *)
ArTanh(t) == LET t2 == (t * t) \div 100000  t3 == (t2 * t) \div 100000  t5 == (t2 * t3) \div 100000
             IN  t + t3 \div 3 + t5 \div 5
RECURSIVE Ln5(_)
Ln5(n) == IF n < 16384 THEN Ln5(2 * n) - 69315
          ELSE IF n >= 32768 THEN Ln5(n \div 2) + 69315
          ELSE 1005061 + 2 * ArTanh((((n - 23170) * 200000) \div (n + 23170)) \div 2)
(* ln (a / b) in units of 1/U *)
LnRat(a, b) == RDiv(Ln5(a) - Ln5(b), 10)
(* -------------------------------------------------- standard normal      *)
(* density and distribution function: table at the multiples of 1/8 and     *)
(* Taylor's formula between them; Simpson is the table by Simpson's rule    *)
Pdf(z) == IF Abs(z) > 5 * U THEN 0 ELSE RDiv(Exp(-(FMul(z, z, U) \div 2)) * 39894, 100000)
CdfStep(k) == LET z == k * (U \div 8) IN Pdf(z) + 4 * Pdf(z + U \div 16) + Pdf(z + U \div 8)
RECURSIVE CdfFrom(_, _, _)
(* the sums are kept in 48 U-units *)
CdfFrom(k, n, acc) == IF k > n THEN <<>> ELSE <<RDiv(acc, 48)>> \o CdfFrom(k + 1, n, TLCEval(acc + CdfStep(k)))
Simpson == CdfFrom(0, 41, 24 * U)
CdfTab == <<5000, 5497, 5987, 6462, 6915, 7340, 7734, 8092, 8413, 8697,
            8944, 9154, 9332, 9479, 9599, 9696, 9772, 9832, 9878, 9912,
            9938, 9957, 9970, 9980, 9987, 9991, 9994, 9996, 9998, 9999,
            9999, 9999, 10000, 10000, 10000, 10000, 10000, 10000, 10000,
            10000, 10000, 10000>>
Cdf0(z) == IF z >= 5 * U THEN U
           ELSE LET k == RDiv(8 * z, U)  z0 == k * (U \div 8)  d == z - z0  f == Pdf(z0)
                    d2 == FMul(d, d, U)  d3 == FMul(d2, d, U)
                IN  CdfTab[k + 1] + FMul(d, f, U) - FMul(FMul(d2, z0, U), f, U) \div 2 + FMul(FMul(d3, FMul(z0, z0, U) - U, U), f, U) \div 6
Cdf(z) == IF z < 0 THEN U - Cdf0(-z) ELSE Cdf0(z)
===========================================================================
