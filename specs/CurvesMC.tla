------------------------------ MODULE CurvesMC ------------------------------
(* A cursor walks along every small curve in steps of 1 / D; the rules of Curves as         *)
(* observed at the cursor.                                                                  *)
EXTENDS Curves, TLC
CONSTANT D
VARIABLES R, X, m, at
vars == <<R, X, m, at>>
Vals == {-2, 0, 3}
Init == /\ R \in { <<0, 1, 3>>, <<0, 2, 3>>, <<1, 2, 3>> }
        /\ X \in [1..3 -> Vals] /\ m \in [1..3 -> {-6, 0, 9}]
        /\ at = -1
Next == at < 3 * D + 1 /\ at' = at + 1 /\ UNCHANGED <<R, X, m>>
Spec == Init /\ [][Next]_vars
In == ~Outside(R, at, D, 0)
I == Seg(R, at, D)
G == R[I + 1] - R[I]
Lin(i) == LineTimes(X[i], X[i + 1], R[i], R[i + 1] - R[i], at, D)
Her(i) == HermiteTimes(X[i], X[i + 1], m[i], m[i + 1], R[i + 1] - R[i], at - R[i] * D, (R[i + 1] - R[i]) * D)
\* exactly the values between the first and the last abscissa are inside
Range == In <=> (at >= R[1] * D /\ at <= R[3] * D)
OneSeg == In => R[I] * D <= at /\ at <= R[I + 1] * D
\* stored values at stored abscissae, from either side
Stored == In => \A k \in 1..3 : at = R[k] * D =>
            \A i \in {j \in 1..2 : j = k \/ j + 1 = k} :
              /\ Lin(i) = X[k] * (R[i + 1] - R[i]) * D
              /\ LET q == (R[i + 1] - R[i]) * D IN Her(i) = 6 * X[k] * q * q * q
\* convex combination
Convex == In => LET lo == IF X[I] < X[I + 1] THEN X[I] ELSE X[I + 1]
                    hi == IF X[I] < X[I + 1] THEN X[I + 1] ELSE X[I] IN
                lo * G * D <= Lin(I) /\ Lin(I) <= hi * G * D
\* acceptance tells values one unit apart
Sharp == In => LET v == (CU * LineTimes(X[I], X[I + 1], R[I], G, at, D)) \div (G * D) IN
            /\ LinOk(v, X[I], X[I + 1], R[I], G, at, D, 1)
            /\ ~LinOk(v + 3, X[I], X[I + 1], R[I], G, at, D, 1)
\* branches cubic in the parameter are reproduced: values and slopes (times 6) of c0 + c1 x + c2 x^2 + c3 x^3
Cub(c, x) == c[1] + c[2] * x + c[3] * x * x + c[4] * x * x * x
Slo(c, x) == 6 * (c[2] + 2 * c[3] * x + 3 * c[4] * x * x)
CubD(c, p, d) == c[1] * d * d * d + c[2] * p * d * d + c[3] * p * p * d + c[4] * p * p * p
ASSUME \A c \in [1..4 -> {-1, 0, 2}], r0 \in {-1, 0, 2}, g \in {1, 3}, p \in 0..6 :
   LET q == 6 IN     \* x = r0 + g p / q
     HermiteTimes(Cub(c, r0), Cub(c, r0 + g), Slo(c, r0), Slo(c, r0 + g), g, p, q) = 6 * CubD(c, r0 * q + g * p, q)
ASSUME \A M \in 2..4, f \in 1..4 : \A k \in 0..(UpCount(M, f) - 1) :
   (UpSeg(k, f, M) - 1) * f + UpFrac(k, f, M) = k /\ UpSeg(k, f, M) \in 1..(M - 1) /\ UpFrac(k, f, M) \in 0..f
=============================================================================
