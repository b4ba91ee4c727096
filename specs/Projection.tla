----------------------------- MODULE Projection -----------------------------
(* Discrete projection of integer sample series on the components of a layout, without *)
(* leaving 32-bit arithmetic: sample magnitudes times 10^6 / sc stay below 2 * 10^9.   *)
EXTENDS TraceLib, Harmonic
RECURSIVE PSum(_, _, _, _, _)
\* sum over the samples of v[t] * basis, in units of sc / 1000
PSum(v, L, r, sc, t) == IF t = 0 THEN 0
   ELSE ((v[t] * (Basis(L, r, t - 1, Len(v)) \div sc)) \div 1000) + PSum(v, L, r, sc, t - 1)
RECURSIVE MaxAbs(_)
MaxAbs(v) == IF v = <<>> THEN 0 ELSE Max2(Abs(Head(v)), MaxAbs(Tail(v)))
PFac(L, r) == IF L[r][1] = 0 THEN 1 ELSE 2
\* recorded coefficient c (units of sc / 1000) is that of the samples v
CoefNear(c, v, L, r, sc, x) ==
  LET n == Len(v) IN
  c # BADNUM /\ Near(n * c, PFac(L, r) * PSum(v, L, r, sc, n), n + 2 * n * (3 + MaxAbs(v) \div 1000) + n * x)
CoefOk(c, v, L, r, sc) == CoefNear(c, v, L, r, sc, 0)
\* all components and columns; cf[r][d], vs[t][d]
VCol(vs, d) == [t \in 1..Len(vs) |-> vs[t][d]]
CoefsShape(cf, L, nd) == Len(cf) = Len(L) /\ \A r \in 1..Len(L) : Len(cf[r]) = nd
CoefsOk(cf, vs, L, sc) ==
  \A d \in 1..Len(vs[1]) : LET v == TLCEval(VCol(vs, d)) IN \A r \in 1..Len(L) : CoefOk(cf[r][d], v, L, r, sc)
\* the samples themselves are rounded to integers (half a unit each)
CoefsOkRounded(cf, vs, L, sc) ==
  \A d \in 1..Len(vs[1]) : LET v == TLCEval(VCol(vs, d)) IN \A r \in 1..Len(L) : CoefNear(cf[r][d], v, L, r, sc, 1000 \div sc + 1)
=============================================================================
