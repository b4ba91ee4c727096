------------------------------ MODULE RomTrace ------------------------------
(* Recorded reduced-order response curves (M01).                                            *)
EXTENDS TraceLib, Rom
VARIABLE l
Row(b) == b.phi \o <<b.w, b.x, b.q>>
Mat(bb) == [i \in 1..Len(bb) |-> Row(bb[i])]
Rising(R) == \A i \in 1..(Len(R) - 1) : R[i] < R[i + 1]
AnyBad(v) == \E i \in 1..Len(v) : v[i] = BADNUM
\* ---------------------------------------------------------------- 1. constant force
Fre(e, r) == IF e.direct THEN e.fr[r] ELSE ModalRe(CosPart(e.bb[r].phi, e.h, 1, e.n), SinPart(e.bb[r].phi, e.h, 1, e.n),
                                                     CosPart(e.F, e.h, 1, e.n), SinPart(e.F, e.h, 1, e.n))
Fim(e, r) == IF e.direct THEN e.fi[r] ELSE ModalIm(CosPart(e.bb[r].phi, e.h, 1, e.n), SinPart(e.bb[r].phi, e.h, 1, e.n),
                                                     CosPart(e.F, e.h, 1, e.n), SinPart(e.F, e.h, 1, e.n))
RowsOf(e, r) == {k \in 1..Len(e.out) : RoAbs(e.out[k].q - RU * e.bb[r].q) <= 1}
WhyForceRow(e, k) ==
  LET o == e.out[k]
      r == CHOOSE i \in 1..Len(e.bb) : k \in RowsOf(e, i)
      b == e.bb[r]
      S(v) == RU * b.q * v
      dre == Dre(RU * b.w * b.w, o.om)
      dim == Dim(100 * b.x, o.om)
      tol == 4 + b.q * (5 + (2 * o.om + (RU * b.w * b.w) \div 4 + 100 * b.x) \div RU) IN
  IF Len(o.u) # Len(b.phi) \/ AnyBad(o.u) \/ o.om = BADNUM \/ ~IsUnit(o.cs, o.sn) THEN "M01.undefined"
  ELSE IF Head(e.h) = 0 /\ ~NearVec(SubSeq(o.u, 1, e.n), [i \in 1..e.n |-> RU * b.phi[i]], 1) THEN "M01.static-part"
  ELSE IF \E j \in 1..Len(e.h) : e.h[j] > 0 /\ ~Turned(o.u, e.h, b.phi, e.h, e.h[j], e.n, o.cs, o.sn, S, 4 + 4 * e.h[j] + b.q * 2 * e.h[j])
       THEN "M01.shape"
  ELSE IF o.om < 0 \/ RoAbs(b.q * BalRe(dre, dim, o.cs, o.sn) - RU * Fre(e, r)) > tol
          \/ RoAbs(b.q * BalIm(dre, dim, o.cs, o.sn) - RU * Fim(e, r)) > tol THEN "M01.response-equation"
  ELSE ""
WhyForce(e) ==
  LET f2(r) == Fre(e, r) * Fre(e, r) + Fim(e, r) * Fim(e, r)
      b(r) == e.bb[r] IN
  IF e.argchanged THEN "M01.arguments-changed"
  ELSE IF \E k \in 1..Len(e.out) : \A r \in 1..Len(e.bb) : k \notin RowsOf(e, r) THEN "M01.amplitude-not-on-backbone"
  ELSE IF \E r \in 1..Len(e.bb) : LET c == Cardinality(RowsOf(e, r)) IN
            IF Ambiguous(b(r).w, b(r).x, b(r).q, f2(r)) THEN c > 2 ELSE c # Count(b(r).w, b(r).x, b(r).q, f2(r)) THEN "M01.points-missing"
  ELSE IF \E k \in 2..(Len(e.out) - 1) : e.out[k].q < e.out[k - 1].q /\ e.out[k + 1].q > e.out[k].q + 1 THEN "M01.order"
  ELSE LET bad == {k \in 1..Len(e.out) : WhyForceRow(e, k) # ""} IN
       IF bad = {} THEN "" ELSE WhyForceRow(e, CHOOSE k \in bad : TRUE)
\* ---------------------------------------------------------------- 2. constant displacement
\* force (units 1/RU) times |phi^H F| against q |D| at frequency om for an interpolated point p
ForceOk(p, n, h, F, om, f, slack) ==
  LET N3 == Len(p) - 3
      w == p[N3 + 1]
      q == p[N3 + 3]
      fr == RoDot(CosPart(p, h, 1, n), F)
      fi == RoDot(SinPart(p, h, 1, n), F)
      g == ISqrt(fr * fr + fi * fi)
      a == FMul(w, w) - FMul(om, om)
      d == FMul(p[N3 + 2], om) \div 10
      rhs == FMul(q, ISqrt(a * a + d * d)) IN
  /\ f # BADNUM
  /\ RoAbs(FMul(f, g) - rhs) <= 12 + slack + FMul(slack, g) + rhs \div 250 + (q * 15) \div RU + RoAbs(f) \div 500
AtEnd(R, num, den) == num = R[1] * den \/ num = R[Len(R)] * den
WhyDisp(e) ==
  IF e.exc # "" THEN (IF Rising(e.R) THEN "M01.refused-" \o e.exc ELSE "")
  ELSE IF ~Rising(e.R) THEN "M01.accepted-unordered-backbone"
  ELSE IF e.argchanged THEN "M01.arguments-changed"
  ELSE IF ~InRange(e.R, e.num, e.den)
       THEN (IF \A k \in 1..Len(e.f) : e.f[k] = BADNUM THEN "" ELSE "M01.outside-the-backbone")
  \* exactly at an end of the backbone the amplitude, stored as a logarithm, may round to either side
  ELSE IF AtEnd(e.R, e.num, e.den) /\ \A k \in 1..Len(e.f) : e.f[k] = BADNUM THEN ""
  ELSE IF AnyBad(e.point) THEN "M01.undefined"
  ELSE LET p == TLCEval(LerpV(Mat(e.bb), e.R, e.num, e.den)) IN
  IF ~NearVec(e.point, p, 2) THEN "M01.interpolated-mode"
  ELSE IF Len(e.f) # Len(e.om) THEN "M01.count"
  ELSE IF \E k \in 1..Len(e.om) : ~ForceOk(p, e.n, e.h, e.F, e.om[k], e.f[k], 0) THEN "M01.force"
  ELSE ""
\* ---------------------------------------------------------------- 3. superharmonic response at prescribed first harmonic
\* e: fund, Rf, hf; sup, Rs, hs; V (integer rows: coefficients, force(s) .., 4 Omega), Rv, hv; c1, cr, num, den, F, rhi
VP(e) == LerpV(e.V, e.Rv, e.num, e.den)
OmV(e, vp) == vp[Len(vp)] \div 4
ForceV(e, vp) == IF e.two THEN ISqrt(vp[Len(vp) - 2] * vp[Len(vp) - 2] + vp[Len(vp) - 1] * vp[Len(vp) - 1]) ELSE vp[Len(vp) - 1]
AmpAt(c, pc, ps) == ISqrt(RoDot(c, pc) * RoDot(c, pc) + RoDot(c, ps) * RoDot(c, ps))
\* direction of (a1, a2) is that of (b1, b2), both in units 1/RU
Along(a1, a2, b1, b2) ==
  LET na == ISqrt(a1 * a1 + a2 * a2)  nb == ISqrt(b1 * b1 + b2 * b2)
      ca == (a1 * RU) \div na  sa == (a2 * RU) \div na  cb == (b1 * RU) \div nb  sb == (b2 * RU) \div nb
      tol == 4 + (3 * RU) \div na + (3 * RU) \div nb IN
  na > 0 /\ nb > 0 /\ RoAbs(ca - cb) <= tol /\ RoAbs(sa - sb) <= tol
Ctx(e) ==
  LET vp == VP(e)
      A == AmpAt(e.cr, CosPart(vp, e.hv, e.rhi, e.n), SinPart(vp, e.hv, e.rhi, e.n)) IN
  [vp |-> vp, A |-> A, ok |-> InRange(e.Rs, A, RU), fok |-> InRange(e.Rf, e.num, e.den), om |-> OmV(e, vp), fV |-> ForceV(e, vp)]
Mem(h, g) == \E i \in 1..Len(h) : h[i] = g
\* expected coefficients of harmonic g of a row: fundamental part and superharmonic part
Part(phi, h, g, n, cs, sn, k, sc(_)) == Turn([i \in 1..n |-> sc(CosPart(phi, h, g, n)[i])], [i \in 1..n |-> sc(SinPart(phi, h, g, n)[i])], cs, sn, k)
Zero(n) == [i \in 1..n |-> 0]
VPlus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
FundPart(e, fp, g) == LET N3 == Len(fp) - 3  S(v) == FMul(v, fp[N3 + 3]) IN
   IF Mem(e.hf, g) THEN Part(SubSeq(fp, 1, N3), e.hf, g, e.n, e.cF, e.sF, g, S) ELSE <<Zero(e.n), Zero(e.n)>>
SupPart(e, sp, o, g) ==
   LET N3 == Len(sp) - 3
       S(v) == FMul(v, sp[N3 + 3])  T(v) == RU * v * e.sup[o.r].q IN
   IF \E i \in 1..Len(e.hs) : e.hs[i] * e.rhi = g
   THEN (IF o.r = 0 THEN Part(SubSeq(sp, 1, N3), e.hs, g \div e.rhi, e.n, o.cs, o.sn, g \div e.rhi, S)
         ELSE Part(e.sup[o.r].phi, e.hs, g \div e.rhi, e.n, o.cs, o.sn, g \div e.rhi, T))
   ELSE <<Zero(e.n), Zero(e.n)>>
ExpectAt(e, fp, sp, o, g) == LET a == FundPart(e, fp, g)  b == SupPart(e, sp, o, g) IN <<VPlus(a[1], b[1]), VPlus(a[2], b[2])>>
\* modal quantities of a row: amplitude, squared frequency, 2 zeta w  (units 1/RU), and the force
Modal(e, cx, sp, o) ==
  LET N3 == Len(sp) - 3
      wS == sp[N3 + 1]  xS == sp[N3 + 2]  qS == sp[N3 + 3]
      ws == e.rhi * cx.om
      z == (xS * 10000) \div wS           \* 2 zeta in units 1e-5
      wm == IF o.r = 0 THEN ws ELSE (e.sup[o.r].w * RU * ws) \div wS
      xx == IF o.r = 0 THEN (wm * (z \div 10)) \div 10000 ELSE (e.sup[o.r].x * wm) \div (10 * e.sup[o.r].w)
      fS == ((FMul(qS, FMul(ws, ws)) \div 10) * (z \div 10)) \div 1000
  IN [q |-> IF o.r = 0 THEN qS ELSE RU * e.sup[o.r].q, wm |-> wm, xx |-> xx, f |-> fS, z |-> z, qS |-> qS]
\* e.pk is the recorded position of the resonance point (a witness)
OmsTarget(e, cx) == (e.rhi * cx.vp[Len(cx.vp)]) \div 4
HasPeak(e, cx) == e.pk \in 1..Len(e.out) /\ e.out[e.pk].r = 0 /\ RoAbs(e.out[e.pk].oms - OmsTarget(e, cx)) <= 2 + (e.rhi + 7) \div 8
Peak(e, cx) == e.pk
RowTol(sp, fp, g) == 8 + 6 * g + ((sp[Len(sp)] + fp[Len(fp)]) * (4 + 2 * g)) \div RU
WhySupRow(e, cx, sp, fp, k) ==
  LET o == e.out[k]
      pk == e.out[Peak(e, cx)]
      mo == Modal(e, cx, sp, o)
      cd == (o.cs * pk.cs + o.sn * pk.sn) \div WU
      sd == (o.sn * pk.cs - o.cs * pk.sn) \div WU
      dre == Dre(FMul(mo.wm, mo.wm), o.oms)
      dim == Dim(mo.xx, o.oms)
      tol == 30 + mo.f \div 100 + (mo.q * (10 + o.oms \div 50 + FMul(mo.wm, mo.wm) \div 900)) \div RU
      N3 == Len(fp) - 3 IN
  IF ~IsUnit(o.cs, o.sn) \/ AnyBad(o.u) \/ o.oms = BADNUM \/ Len(o.u) # NumHc(e.hout) * e.n THEN "M01.undefined"
  ELSE IF Mem(e.hout, 0) /\ ~NearVec(SubSeq(o.u, 1, e.n), IF Mem(e.hv, 0) THEN SubSeq(cx.vp, 1, e.n) ELSE Zero(e.n), 2) THEN "M01.static-part"
  ELSE IF \E j \in 1..Len(e.hout) : e.hout[j] > 0 /\
            LET g == e.hout[j]  x == ExpectAt(e, fp, sp, o, g) IN
              ~(NearVec(CosPart(o.u, e.hout, g, e.n), x[1], RowTol(sp, fp, g)) /\ NearVec(SinPart(o.u, e.hout, g, e.n), x[2], RowTol(sp, fp, g)))
       THEN "M01.superposed-response"
  ELSE IF RoAbs(FMul(mo.q, BalRe(dre, dim, -sd, cd)) - mo.f) > tol \/ RoAbs(FMul(mo.q, BalIm(dre, dim, -sd, cd))) > tol THEN "M01.superharmonic-equation"
  ELSE ""
BaseForce(e, fp, om) ==     \* force of the fundamental mode (units 1/RU)
  LET N3 == Len(fp) - 3
      fr == RoDot(CosPart(fp, e.hf, 1, e.n), e.F)
      fi == RoDot(SinPart(fp, e.hf, 1, e.n), e.F)
      g == ISqrt(fr * fr + fi * fi)
      a == FMul(fp[N3 + 1], fp[N3 + 1]) - FMul(om, om)
      d == FMul(fp[N3 + 2], om) \div 10 IN
  (FMul(fp[N3 + 3], ISqrt(a * a + d * d)) * RU) \div g
WhyVprnm(e) ==
  IF ~(Rising(e.Rv) /\ Rising(e.Rs) /\ Rising(e.Rf)) THEN (IF e.exc # "" THEN "" ELSE "M01.accepted-unordered-backbone")
  ELSE IF ~InRange(e.Rv, e.num, e.den) THEN (IF e.exc # "" \/ e.allnan THEN "" ELSE "M01.outside-the-backbone")
  ELSE LET cx == TLCEval(Ctx(e)) IN
  IF RoAbs(cx.A - RU * e.Rs[1]) <= 2 \/ RoAbs(cx.A - RU * e.Rs[Len(e.Rs)]) <= 2 THEN ""
  ELSE IF ~cx.ok THEN (IF e.exc # "" \/ e.allnan THEN "" ELSE "M01.outside-the-backbone")
  ELSE IF e.exc # "" THEN "M01.refused-" \o e.exc
  ELSE IF e.argchanged THEN "M01.arguments-changed"
  ELSE IF e.hout # e.hexp THEN "M01.harmonics"
  ELSE IF ~cx.fok \/ (AtEnd(e.Rf, e.num, e.den) /\ \A k \in 1..Len(e.out) : e.out[k].f = BADNUM)
       THEN (IF \A k \in 1..Len(e.out) : e.out[k].f = BADNUM THEN "" ELSE "M01.outside-the-backbone")
  ELSE LET sp == TLCEval(LerpV(Mat(e.sup), e.Rs, cx.A, RU))
           fp == TLCEval(LerpV(Mat(e.fund), e.Rf, e.num, e.den))
           v1c == RoDot(e.c1, CosPart(cx.vp, e.hv, 1, e.n))
           v1s == RoDot(e.c1, SinPart(cx.vp, e.hv, 1, e.n)) IN
  IF ~HasPeak(e, cx) THEN "M01.resonance-missing"
  ELSE IF ~IsUnit(e.cF, e.sF) THEN "M01.undefined"
  ELSE LET pk == e.out[Peak(e, cx)]
           bad == {k \in 1..Len(e.out) : WhySupRow(e, cx, sp, fp, k) # ""}
           s == SupPart(e, sp, pk, e.rhi)
           b0 == BaseForce(e, fp, cx.om) IN
  IF bad # {} THEN WhySupRow(e, cx, sp, fp, CHOOSE k \in bad : TRUE)
  ELSE IF ~Along(RoDot(e.c1, FundPart(e, fp, 1)[1]), RoDot(e.c1, FundPart(e, fp, 1)[2]), v1c, v1s) THEN "M01.prescribed-phase"
  ELSE IF ~Along(RoDot(e.cr, s[1]), RoDot(e.cr, s[2]), RoDot(e.cr, CosPart(cx.vp, e.hv, e.rhi, e.n)), RoDot(e.cr, SinPart(cx.vp, e.hv, e.rhi, e.n)))
       THEN "M01.superharmonic-phase"
  ELSE IF e.pinned /\ ~(RoAbs(RoDot(e.c1, CosPart(pk.u, e.hout, 1, e.n)) - v1c) <= 20 /\ RoAbs(RoDot(e.c1, SinPart(pk.u, e.hout, 1, e.n)) - v1s) <= 20)
       THEN "M01.prescribed-amplitude"
  ELSE IF \E k \in 1..Len(e.out) :
            LET o == e.out[k]  mo == Modal(e, cx, sp, o)
                c == IF e.correct THEN FMul(cx.fV - b0, (mo.q * RU) \div mo.qS) ELSE 0 IN
            o.f = BADNUM \/ ~ForceOk(fp, e.n, e.hf, e.F, o.om, o.f - c, IF e.correct THEN 60 + b0 \div 100 ELSE 0) THEN "M01.force"
  ELSE IF e.correct /\ RoAbs(pk.f - cx.fV) > 5 THEN "M01.force-at-resonance"
  ELSE IF \E i \in 2..Len(e.out) : e.out[i].oms < e.out[i - 1].oms /\ e.sorted THEN "M01.order"
  ELSE ""
\* 4. requested frequencies: e.base rows [om, u, f], e.rows rows [om, u, f], e.req requested; linear interpolation of the response
WhyExtra(e) ==
  LET B == e.base
      nB == Len(B)
      Is(o, k) == o.om = B[k].om
      InB(o) == \E k \in 1..nB : Is(o, k)
      sorted == \A k \in 2..Len(e.rows) : e.rows[k].om >= e.rows[k - 1].om IN
  IF e.exc # "" THEN (IF e.sorted THEN "M01.refused-" \o e.exc ELSE "")
  ELSE IF Len(e.rows) # nB + Len(e.req) THEN "M01.count"
  ELSE IF ~sorted \/ \E k \in 1..nB : \A i \in 1..Len(e.rows) : e.rows[i].om # B[k].om THEN "M01.order"
  ELSE IF \E i \in 1..Len(e.req) : \A k \in 1..Len(e.rows) : e.rows[k].om # e.req[i] THEN "M01.requested-frequency-missing"
  ELSE IF \E i \in 1..Len(e.rows) : LET o == e.rows[i] IN
      IF InB(o) THEN LET b == B[CHOOSE k \in 1..nB : Is(o, k)] IN ~NearVec(o.u, b.u, 2) \/ ~Near(o.f, b.f, 3 + RoAbs(b.f) \div 2000)
      ELSE IF o.om < B[1].om \/ o.om > B[nB].om THEN \E j \in 1..Len(o.u) : e.ss[j] /\ o.u[j] # BADNUM
      ELSE LET k == CHOOSE k \in 1..(nB - 1) : B[k].om < o.om /\ o.om < B[k + 1].om
               g == B[k + 1].om - B[k].om IN
           \E j \in 1..Len(o.u) : o.u[j] = BADNUM \/
              RoAbs((o.u[j] - B[k].u[j]) * g - (B[k + 1].u[j] - B[k].u[j]) * (o.om - B[k].om)) > 3 * g + 2 * RoAbs(B[k + 1].u[j] - B[k].u[j])
     THEN "M01.requested-frequency"
  ELSE ""
\* ---------------------------------------------------------------- 5. choice of units
\* the same curve with all displacements and forces multiplied by one factor (already divided out again)
\* resonance point (frequency om, superharmonic amplitude amp) reproduced whatever the damping
WhyLight(e) ==
  IF e.exc # "" THEN "M01.light-damping-refused-" \o e.exc
  ELSE IF ~\E k \in 1..Len(e.pts) : Near(e.pts[k][1], e.om, 1) /\ Near(e.pts[k][2], e.amp, 2)
       THEN "M01.resonance-point-lost" ELSE ""
WhyUnits(e) ==
  IF e.exc # e.base.exc THEN "M01.units-" \o (IF e.exc = "" THEN "accepted" ELSE "refused")
  ELSE IF Len(e.u) # Len(e.base.u) \/ Len(e.f) # Len(e.base.f) THEN "M01.units-points"
  ELSE IF \E i \in 1..Len(e.u) : ~Near(e.u[i], e.base.u[i], 2) THEN "M01.units-response"
  ELSE IF \E i \in 1..Len(e.f) : ~Near(e.f[i], e.base.f[i], 3) THEN "M01.units-force"
  ELSE ""
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "force" -> WhyForce(e)
            [] e.op = "disp" -> WhyDisp(e)
            [] e.op = "vprnm" -> WhyVprnm(e)
            [] e.op = "extra" -> WhyExtra(e)
            [] e.op = "units" -> WhyUnits(e)
            [] e.op = "light" -> WhyLight(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
