---------------------------- MODULE ShootingTrace ----------------------------
(* Recorded shooting residuals, motions and stability reports (R04).  The motion is read    *)
(* sample by sample; the variables are the accumulators of Shooting.                        *)
EXTENDS TraceLib, Shooting
VARIABLES l, m
\* m: [on, S, i, x0, u, v, r, pu, pv, pr, wp, wi] of the motion being read
Off == [on |-> FALSE]
NearV(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
\* --- 1. one evaluation: x0 in units 1/U; fin, R in units 1/(1000 U)
WhyRun(e) == IF e.argchanged THEN "R04.arguments-changed"
             ELSE IF Len(e.R) # 2 * e.S.n THEN "R04.shape"
             ELSE IF ~NearV(e.R, ZSub(e.fin, ZMul(1000, e.x0)), 3) THEN "R04.residual-is-not-final-minus-initial"
             ELSE ""
\* --- one sample of the motion
WhyPt(e) ==
  LET S == m.S IN
  IF e.i # m.i + 1 THEN "R04.samples-missing"
  ELSE IF Len(e.u) # S.n \/ Len(e.v) # S.n THEN "R04.samples-shape"
  ELSE IF \E k \in 1..S.n : e.u[k] = BADNUM \/ e.v[k] = BADNUM THEN "R04.samples-undefined"
  ELSE IF e.i = 0 THEN (IF e.u \o e.v = m.x0 THEN "" ELSE "R04.motion-starts-elsewhere")
  ELSE IF e.i % 2 = 1 THEN ""
  ELSE LET r == TLCEval(Rhs(S, e.i, e.u, e.v))
           wp == TLCEval(Acc(m.wp, m.v2, m.v1, e.v))
           wi == TLCEval(Acc(m.wi, m.r2, m.r1, r))
       IN IF ~PathOk(S, m.u0, e.u, wp, 6) THEN "R04.velocity-is-not-the-derivative"
          ELSE IF ~ImpulseOk(S, m.v0, e.v, wi, m.tol) THEN "R04.equation-of-motion" ELSE ""
StepPt(e) ==
  LET S == m.S
      r == TLCEval(Rhs(S, e.i, e.u, e.v)) IN
  IF e.i = 0 THEN [m EXCEPT !.i = 0, !.u0 = e.u, !.v0 = e.v, !.v2 = e.v, !.r2 = r]
  ELSE IF e.i % 2 = 1 THEN [m EXCEPT !.i = e.i, !.v1 = e.v, !.r1 = r]
  ELSE [m EXCEPT !.i = e.i, !.wp = TLCEval(Acc(m.wp, m.v2, m.v1, e.v)), !.wi = TLCEval(Acc(m.wi, m.r2, m.r1, r)), !.v2 = e.v, !.r2 = r]
Start(e) == LET z == [k \in 1..e.S.n |-> 0] IN
  [on |-> TRUE, S |-> e.S, i |-> -1, x0 |-> e.x0, tol |-> e.tol, u0 |-> z, v0 |-> z, v1 |-> z, v2 |-> z, r1 |-> z, r2 |-> z, wp |-> z, wi |-> z]
\* --- 2. exact flow: Phi modal matrix, p quarter turns, wn natural frequencies, modal coordinates q, y (velocity / wn)
Phys(e, res) == ZMat(e.Phi, [k \in 1..Len(res) |-> res[k][1]]) \o ZMat(e.Phi, [k \in 1..Len(res) |-> e.wn[k] * res[k][2]])
ExactRes(e, q, xp) == Phys(e, [k \in 1..Len(e.p) |-> ModeRes(e.p[k], q[k], xp[k])])
WhyExact(e) ==
  LET z == [k \in 1..Len(e.p) |-> <<0, 0>>] IN
  IF ~NearV(e.R, ZMul(1000, ExactRes(e, e.q, e.xp)), e.tol) THEN "R04.residual"
  ELSE IF ~NearV(e.Jd, ZMul(1000, ExactRes(e, e.d, z)), e.tol) THEN "R04.derivative"
  ELSE IF ~NearV(e.Md, ZAdd(ZMul(1000, Phys(e, e.d)), e.Jd), 3) THEN "R04.monodromy" ELSE ""
\* --- 3. derivatives by central differences along a direction (units 1/10 U)
WhyGrad(e) == IF \E k \in 1..Len(e.fd) : ~Near(e.Jd[k], e.fd[k], 15 + Abs(e.fd[k]) \div 500)
              THEN (IF e.freq THEN "R04.frequency-derivative" ELSE "R04.derivative") ELSE ""
\* --- 4. stability: decay[k] halvings of mode k per period (growth if negative)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
MinOf(q) == CHOOSE x \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : x <= q[k]
Modulus(k) == IF k >= 0 THEN 10000 \div Pow2(k) ELSE 10000 * Pow2(-k)
WhyStab(e) ==
  LET k == MinOf(e.decay) IN
  IF ~Near(e.rho, Modulus(k), 4 + Modulus(k) \div 500) THEN "R04.largest-multiplier"
  ELSE IF k # 0 /\ e.stable # (k > 0) THEN "R04.stability" ELSE ""
\* one degree of freedom: monodromy a b c d and modulus rho in units 1/1000
WhyJury(e) ==
  LET tr == e.mm[1] + e.mm[4]
      det == (e.mm[1] * e.mm[4] - e.mm[2] * e.mm[3])
      disc == tr * tr - 4 * det
      big == Abs(e.mm[1]) + Abs(e.mm[2]) + Abs(e.mm[3]) + Abs(e.mm[4]) + 10
      two == 2 * e.rho - Abs(tr)
      ok == IF disc < 0 THEN Abs(e.rho * e.rho - det) <= 2 * big + 4 * e.rho
            ELSE Abs(two * two - disc) <= 6 * big + 10 * e.rho
      margin == 5 + big \div 500
  IN IF Abs(disc) > 30 * big /\ ~ok THEN "R04.largest-multiplier"
     ELSE IF e.rho > 1000 + margin /\ e.stable THEN "R04.stability"
     ELSE IF e.rho < 1000 - margin /\ ~e.stable THEN "R04.stability" ELSE ""
WhySeries(e) == IF e.a = e.b THEN "" ELSE "R04.time-series-of-solution"
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "run" -> WhyRun(e)
            [] e.op = "pt" -> WhyPt(e)
            [] e.op = "end" -> IF m.i = m.S.nt THEN "" ELSE "R04.samples-missing"
            [] e.op = "exact" -> WhyExact(e)
            [] e.op = "grad" -> WhyGrad(e)
            [] e.op = "stab" -> WhyStab(e)
            [] e.op = "jury" -> WhyJury(e)
            [] e.op = "series" -> WhySeries(e)
            [] e.op = "refuse" -> IF e.ok THEN "" ELSE "R04.force-with-memory-integrated"
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1 /\ m = Off
Step(e) == CASE e.op = "run" -> m' = Start(e)
             [] e.op = "pt" -> m' = StepPt(e)
             [] e.op = "end" -> m' = Off
             [] OTHER -> UNCHANGED m
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ Step(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
                   /\ m' = Off
Spec == Init /\ [][Next]_<<l, m>>
=============================================================================
