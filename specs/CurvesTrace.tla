---------------------------- MODULE CurvesTrace ----------------------------
(* Recorded interpolations (P02).                                                           *)
EXTENDS TraceLib, Curves
VARIABLE l
Row(e, k) == e.out[k]
\* linear: e.R references, e.X rows, e.new sequence of [num, den, side], e.out rows (units 1/CU), e.nan flags
WhyLinRow(e, k) ==
  LET z == e.new[k] IN
  IF Outside(e.R, z.num, z.den, z.side) THEN (IF \A j \in 1..Len(e.nan[k]) : e.nan[k][j] THEN "" ELSE "P02.extrapolated")
  ELSE IF \E j \in 1..Len(e.nan[k]) : e.nan[k][j] THEN "P02.undefined-inside"
  ELSE LET i == Seg(e.R, z.num, z.den)
           n == IF Len(e.R) = 1 THEN i ELSE i + 1
           g == IF Len(e.R) = 1 THEN 1 ELSE e.R[n] - e.R[i] IN
       IF Len(e.out[k]) # Len(e.X[1]) THEN "P02.shape"
       ELSE IF \E j \in 1..Len(e.out[k]) : e.out[k][j] = BADNUM
               \/ ~LinOk(e.out[k][j], e.X[i][j], e.X[n][j], e.R[i], g, z.num, z.den, 1)
            THEN (IF z.num = e.R[i] * z.den \/ z.num = e.R[n] * z.den THEN "P02.stored-solution" ELSE "P02.linear-interpolation")
       ELSE ""
WhyLin(e) ==
  IF e.exc # "" THEN (IF Increasing(e.R) THEN "P02.refused-" \o e.exc ELSE "")
  ELSE IF ~Increasing(e.R) THEN "P02.accepted-unordered-references"
  ELSE IF e.argchanged THEN "P02.arguments-changed"
  ELSE IF Len(e.out) # Len(e.new) THEN "P02.count"
  ELSE LET bad == {k \in 1..Len(e.new) : WhyLinRow(e, k) # ""} IN
       IF bad = {} THEN "" ELSE WhyLinRow(e, CHOOSE k \in bad : TRUE)
\* Hermite: e.G gradients (integers), last column > 0; slopes times 6 are G * 6 / G[last]
Last(q) == q[Len(q)]
Lam(e) == [i \in 1..Len(e.X) |-> Last(e.X[i])]
Accept(e) == /\ Increasing(Lam(e)) /\ \A i \in 1..Len(e.G) : Last(e.G[i]) > 0
             /\ \A k \in 1..Len(e.new) : ~Outside(Lam(e), e.new[k].num, e.new[k].den, e.new[k].side)
M6(e, i, j) == (e.G[i][j] * 6) \div Last(e.G[i])
HermRow(e, v, i, p, q) ==     \* row v at the fraction p / q of interval i
  LET g == Last(e.X[i + 1]) - Last(e.X[i]) IN
  \A j \in 1..(Len(v) - 1) : v[j] # BADNUM /\ HermOk(v[j], e.X[i][j], e.X[i + 1][j], M6(e, i, j), M6(e, i + 1, j), g, p, q, 1)
WhyHermRow(e, k) ==
  LET z == e.new[k]
      R == Lam(e)
      i == Seg(R, z.num, z.den)
      g == R[i + 1] - R[i]
      v == e.out[k] IN
  IF Len(v) # Len(e.X[1]) THEN "P02.shape"
  ELSE IF ~(Last(v) # BADNUM /\ Abs(Last(v) * z.den - CU * z.num) <= z.den) THEN "P02.parameter-of-result"
  ELSE IF ~HermRow(e, v, i, z.num - R[i] * z.den, g * z.den)
       THEN (IF z.num = R[i] * z.den \/ z.num = R[i + 1] * z.den THEN "P02.stored-solution" ELSE "P02.hermite-interpolation")
  ELSE ""
WhyHerm(e) ==
  IF e.exc # "" THEN (IF Accept(e) THEN "P02.refused-" \o e.exc ELSE "")
  ELSE IF ~Accept(e) THEN "P02.accepted-what-it-must-refuse"
  ELSE IF e.argchanged THEN "P02.arguments-changed"
  ELSE IF Len(e.out) # Len(e.new) THEN "P02.count"
  ELSE LET bad == {k \in 1..Len(e.new) : WhyHermRow(e, k) # ""} IN
       IF bad = {} THEN "" ELSE WhyHermRow(e, CHOOSE k \in bad : TRUE)
WhyUpRow(e, k) ==
  LET n == k - 1
      M == Len(e.X)
      i == UpSeg(n, e.f, M)
      p == UpFrac(n, e.f, M)
      g == Last(e.X[i + 1]) - Last(e.X[i])
      v == e.out[k] IN
  IF Len(v) # Len(e.X[1]) THEN "P02.shape"
  ELSE IF ~(Last(v) # BADNUM /\ Abs((Last(v) - CU * Last(e.X[i])) * e.f - CU * g * p) <= e.f) THEN "P02.parameter-of-result"
  ELSE IF ~HermRow(e, v, i, p, e.f) THEN (IF p = 0 \/ p = e.f THEN "P02.stored-solution" ELSE "P02.hermite-interpolation") ELSE ""
WhyUp(e) ==
  IF e.exc # "" THEN (IF Accept(e) THEN "P02.refused-" \o e.exc ELSE "")
  ELSE IF ~Accept(e) THEN "P02.accepted-what-it-must-refuse"
  ELSE IF e.argchanged THEN "P02.arguments-changed"
  ELSE IF Len(e.out) # UpCount(Len(e.X), e.f) THEN "P02.count"
  ELSE LET bad == {k \in 1..Len(e.out) : WhyUpRow(e, k) # ""} IN
       IF bad = {} THEN "" ELSE WhyUpRow(e, CHOOSE k \in bad : TRUE)
\* slopes of the returned curve at stored points by differences of closely spaced requests (units 1/100)
WhySlope(e) == IF \A j \in 1..Len(e.fd) : e.fd[j] # BADNUM /\ Abs(e.fd[j] * e.D - 100 * e.G[j]) <= 8 * e.D THEN "" ELSE "P02.stored-slope"
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "linear" -> WhyLin(e)
            [] e.op = "hermite" -> WhyHerm(e)
            [] e.op = "upsample" -> WhyUp(e)
            [] e.op = "slope" -> WhySlope(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
