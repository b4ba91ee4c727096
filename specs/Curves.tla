------------------------------- MODULE Curves -------------------------------
(* Interpolation of solution histories.  Rows X[i] of integers at strictly increasing       *)
(* integer abscissae R[i];  requested values are rationals num / den.  Results are compared *)
(* in units 1/CU, by cross-multiplication.                                                  *)
EXTENDS Integers, Sequences
CU == 1000
CAbs(x) == IF x < 0 THEN -x ELSE x
Increasing(R) == \A i \in 1..(Len(R) - 1) : R[i] < R[i + 1]
\* position of a request: side is -1 / 1 for values just below / above num / den
Below(R, num, den, side) == num < R[1] * den \/ (num = R[1] * den /\ side = -1)
Above(R, num, den, side) == num > R[Len(R)] * den \/ (num = R[Len(R)] * den /\ side = 1)
Outside(R, num, den, side) == Below(R, num, den, side) \/ Above(R, num, den, side)
\* interval holding a value inside
Seg(R, num, den) == IF Len(R) = 1 THEN 1
                    ELSE CHOOSE i \in 1..(Len(R) - 1) : /\ R[i] * den <= num
                                                        /\ (num < R[i + 1] * den \/ (i = Len(R) - 1 /\ num = R[i + 1] * den))
\* straight line from a at R0 to b at R0 + g: value times g * den
LineTimes(a, b, R0, g, num, den) == a * g * den + (num - R0 * den) * (b - a)
\* the observed v (units 1/CU) is the value on the line, to one unit
LinOk(v, a, b, R0, g, num, den, tol) == CAbs(v * g * den - CU * LineTimes(a, b, R0, g, num, den)) <= tol * g * den
\* cubic with end values a, b and end slopes ma / 6, mb / 6 over g, at the fraction p / q: value times 6 q^3
HermiteTimes(a, b, ma, mb, g, p, q) ==
    6 * a * (q * q * q - 3 * p * p * q + 2 * p * p * p) + 6 * b * (3 * p * p * q - 2 * p * p * p)
    + g * ma * (p * q * q - 2 * p * p * q + p * p * p) + g * mb * (p * p * p - p * p * q)
HermOk(v, a, b, ma, mb, g, p, q, tol) == CAbs(v * (6 * q * q * q) - CU * HermiteTimes(a, b, ma, mb, g, p, q)) <= tol * (6 * q * q * q)
\* up-sampling: f intervals per step
UpCount(M, f) == (M - 1) * f + 1
UpSeg(k, f, M) == IF k \div f + 1 = M THEN M - 1 ELSE k \div f + 1
UpFrac(k, f, M) == IF k \div f + 1 = M THEN f ELSE k % f
=============================================================================
