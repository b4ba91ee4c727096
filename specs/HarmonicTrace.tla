---------------------------- MODULE HarmonicTrace ----------------------------
(* Binding of the harmonic representation (H01), its utilities (H02) and the linear   *)
(* prediction (H03) to recorded calls.  Values times 10^6 where fractional.           *)
EXTENDS TraceLib, Harmonic
VARIABLES l

Bad(v) == \E i \in 1..Len(v) : v[i] = BADNUM
BadM(m) == \E i \in 1..Len(m) : Bad(m[i])
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Shape(m, r, q) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = q
\* layout of all harmonics 0..k
Full(k) == Layout([i \in 1..k + 1 |-> i - 1])
\* position of a component in a layout (0 if absent)
Pos(L, b) == IF \E r \in 1..Len(L) : L[r] = b THEN CHOOSE r \in 1..Len(L) : L[r] = b ELSE 0

\* -------------------------------------------------------------------------- H01
\* e.X coefficients (Nhc x nd), e.xt samples (order 0, 10^-6), e.back all coefficients of the samples
WhySamples(e) ==
  LET L == Layout(e.h)  nd == Len(e.X[1])  FL == Full(e.kmax) IN
  IF ~Shape(e.xt, e.nt, nd) THEN "H01.samples-shape"
  ELSE IF e.order = 0 /\ \E j \in 1..e.nt, d \in 1..nd : ~Near(e.xt[j][d], Series(L, Col(e.X, d), j - 1, e.nt), 120)
       THEN "H01.samples-of-series"
  ELSE IF ~Shape(e.back, Len(FL), nd) THEN "H01.coefficients-shape"
  ELSE IF \E d \in 1..nd :
            LET dx == DerivN(L, Col(e.X, d), e.order)
            IN \E r \in 1..Len(FL) : LET p == Pos(L, FL[r]) IN
                  e.back[r][d] # (IF p = 0 THEN 0 ELSE dx[p])
       THEN (IF e.order = 0 THEN "H01.round-trip" ELSE "H01.time-derivative")
  ELSE IF e.argchanged THEN "H01.arguments-changed" ELSE ""

\* discrete projection of arbitrary integer samples: nt * coefficient
WhyProject(e) ==
  LET L == Layout(e.h)  nd == Len(e.xs[1]) IN
  IF ~Shape(e.v, Len(L), nd) THEN "H01.projection-shape"
  ELSE IF \E r \in 1..Len(L), d \in 1..nd :
         LET f == IF L[r][1] = 0 THEN 1 ELSE 2
             want == f * HSum(LAMBDA j : e.xs[j][d] * Basis(L, r, j - 1, e.nt), e.nt)
         IN e.v[r][d] = BADNUM \/ ~Near(e.nt * e.v[r][d], want, 6 * e.nt)
       THEN "H01.projection"
  ELSE IF e.argchanged THEN "H01.arguments-changed" ELSE ""

WhyNhc(e) == IF \E i, j \in 1..Len(e.h) : i # j /\ e.h[i] = e.h[j]
             THEN (IF e.exc = "none" THEN "H01.repeated-harmonics-accepted" ELSE "")
             ELSE IF e.exc # "none" \/ e.n # NhcOf(e.h) THEN "H01.component-count" ELSE ""

WhyStiff(e) ==
  LET L == Layout(e.h)  nd == Len(e.C)  n == Len(L) * nd
      B(i) == (i - 1) \div nd + 1
      I(i) == ((i - 1) % nd) + 1
      m(i, j) == IF e.onlyc THEN 0 ELSE e.M[I(i)][I(j)]
      k(i, j) == IF e.onlyc THEN 0 ELSE e.K[I(i)][I(j)]
  IN IF e.nret # (IF e.grad THEN 2 ELSE 1) THEN "H01.stiffness-number-of-results"
     ELSE IF ~Shape(e.E, n, n) THEN "H01.stiffness-shape"
     ELSE IF \E i, j \in 1..n : e.E[i][j] # StiffEntry(L, B(i), B(j), m(i, j), e.C[I(i)][I(j)], k(i, j), e.w)
          THEN "H01.stiffness"
     ELSE IF e.grad /\ ~Shape(e.dE, n, n) THEN "H01.stiffness-derivative-shape"
     ELSE IF e.grad /\ \E i, j \in 1..n : e.dE[i][j] # StiffDw(L, B(i), B(j), m(i, j), e.C[I(i)][I(j)], e.w)
          THEN "H01.stiffness-derivative"
     ELSE IF e.argchanged THEN "H01.arguments-changed" ELSE ""

\* -------------------------------------------------------------------------- H02
\* e.U rows of solutions (nd dofs, trailing entries), e.p delay of each row in 1/192 of the period
WhyRotate(e) ==
  LET L == Layout(e.h)  nd == e.nd  nh == Len(L) * nd IN
  IF Len(e.V) # Len(e.U) THEN "H02.rotation-shape"
  ELSE IF \E i \in 1..Len(e.U) : Len(e.V[i]) # Len(e.U[i]) THEN "H02.rotation-shape"
  ELSE IF \E i \in 1..Len(e.U), d \in 1..nd :
            LET x == [r \in 1..Len(L) |-> e.U[i][(r - 1) * nd + d]]
                y == Delay(L, x, e.p[i])
            IN \E r \in 1..Len(L) : ~Near(e.V[i][(r - 1) * nd + d], y[r], 40)
       THEN "H02.rotation"
  ELSE IF \E i \in 1..Len(e.U) : \E j \in nh + 1..Len(e.U[i]) : e.V[i][j] # 1000000 * e.U[i][j]
       THEN "H02.rotation-changes-trailing-entries"
  ELSE IF e.argchanged THEN "H02.arguments-changed" ELSE ""

\* phases in 1/1000 of pi/96 (half turn = 96000)
WhyWrap(e) ==
  IF Len(e.r) # Len(e.a) THEN "H02.wrap-shape"
  ELSE IF \E i \in 1..Len(e.a) : e.r[i] = BADNUM \/ (e.r[i] - e.a[i]) % 192000 # 0 THEN "H02.wrap-by-whole-turns"
  ELSE IF \E i \in 1..Len(e.a) : IF e.edge[i] THEN Abs(e.r[i]) > 96000 ELSE e.r[i] < -96000 \/ e.r[i] >= 96000
       THEN "H02.wrap-range"
  ELSE IF e.argchanged THEN "H02.arguments-changed" ELSE ""

\* conditioning: floors in quarters, result times 8 nd
WhyCond(e) ==
  LET L == Layout(e.h)  nd == e.nd  nh == Len(L) * nd
      hi(r) == CHOOSE i \in 1..Len(e.h) : e.h[i] = L[r][1]
      same(r) == {q \in 1..Len(L) : L[q][1] = L[r][1]}
      mag(r) == SumSeq([j \in 1..nh |-> IF ((j - 1) \div nd + 1) \in same(r) THEN Abs(e.X[j]) ELSE 0])
      cnt(r) == nd * Comps(L[r][1])
      want(j) == IF j <= nh
                 THEN LET r == (j - 1) \div nd + 1 IN Max2(e.floor[hi(r)] * 2 * nd, (8 * nd * mag(r)) \div cnt(r))
                 ELSE Max2(e.floor[Len(e.h) + 1] * 2 * nd, Abs(e.X[j]) * 8 * nd)
  IN IF Len(e.c) # Len(e.X) THEN "H02.conditioning-shape"
     ELSE IF \E j \in 1..Len(e.X) : e.c[j] # want(j)
          THEN (IF \E j \in 1..nh : e.c[j] # want(j) THEN "H02.conditioning" ELSE "H02.conditioning-of-trailing-entries")
     ELSE IF e.argchanged THEN "H02.arguments-changed" ELSE ""

WhyZero(e) ==
  LET n == Len(e.x) IN
  IF Len(e.tf) # n THEN "H02.zero-crossing-shape"
  ELSE IF \E i \in 1..n : e.tf[i] # (i < n /\ Sgn(e.x[i]) * Sgn(e.x[Min2(i + 1, n)]) = -1
                                     /\ (e.tol < 0 \/ 4 * Abs(e.x[i]) < e.tol))
       THEN "H02.zero-crossings"
  ELSE IF e.argchanged THEN "H02.arguments-changed" ELSE ""

\* -------------------------------------------------------------------------- H03
\* residual (times 16 and 10^4) of the harmonic equations of the free dofs at frequency w:
\* damping (a M + b K) / 16; xc, xs displacements of all dofs (10^-4); fc, fs forces (10^-4)
DampV(e, x) == [i \in 1..Len(x) |-> e.ab[1] * Dot(e.M[i], x) + e.ab[2] * Dot(e.K[i], x)]
ResC(e, w, xc, xs, fc) == LET k == MatVec(e.K, xc)  m == MatVec(e.M, xc)  d == DampV(e, xs)
                          IN [i \in 1..Len(xc) |-> 16 * (k[i] - w * w * m[i] - fc[i]) + w * d[i]]
ResS(e, w, xc, xs, fs) == LET k == MatVec(e.K, xs)  m == MatVec(e.M, xs)  d == DampV(e, xc)
                          IN [i \in 1..Len(xc) |-> 16 * (k[i] - w * w * m[i] - fs[i]) - w * d[i]]
TolR(e, w) == 2 + SumSeq([i \in 1..Len(e.K) |->
                 SumSeq([j \in 1..Len(e.K) |-> (16 + w * Abs(e.ab[2])) * Abs(e.K[i][j])
                                               + (16 * w * w + w * Abs(e.ab[1])) * Abs(e.M[i][j])])])
\* all modes kept (e.ph = integer mode shapes of the free dofs e.free, ascending frequency)
Free(e, v) == [i \in 1..Len(e.free) |-> v[e.free[i]]]
Pick(m, idx) == [i \in 1..Len(idx) |-> [j \in 1..Len(idx) |-> m[idx[i]][idx[j]]]]
LinOk(e, w, xc, xs, fc, fs, nm) ==
  LET rc == Free(e, ResC(e, w, xc, xs, fc))   rs == Free(e, ResS(e, w, xc, xs, fs))
      tol == TolR(e, w)
      mf == Pick(e.M, e.free)
      mtol == SumSeq([i \in 1..Len(mf) |-> SumSeq([j \in 1..Len(mf) |-> Abs(mf[i][j])])])
      p1(k) == SumSeq([i \in 1..Len(e.ph[k]) |-> Abs(e.ph[k][i])])
  IN IF nm = Len(e.free)
     THEN \A i \in 1..Len(rc) : Abs(rc[i]) <= tol /\ Abs(rs[i]) <= tol
     ELSE /\ \A k \in 1..nm : Abs(Dot(e.ph[k], rc)) <= tol * p1(k) /\ Abs(Dot(e.ph[k], rs)) <= tol * p1(k)
          /\ \A k \in nm + 1..Len(e.free) :
                /\ Abs(Dot(e.ph[k], MatVec(mf, Free(e, xc)))) <= mtol * p1(k)
                /\ Abs(Dot(e.ph[k], MatVec(mf, Free(e, xs)))) <= mtol * p1(k)
\* eigenvectors are what they are said to be (on the free block)
ModesOk(e) == LET mf == Pick(e.M, e.free)  kf == Pick(e.K, e.free) IN
  /\ \A k \in 1..Len(e.ph) : MatVec(kf, VScale(e.lq[k], e.ph[k])) = MatVec(mf, VScale(e.lp[k], e.ph[k]))
  /\ \A k \in 1..Len(e.ph) - 1 : e.lp[k] * e.lq[k + 1] < e.lp[k + 1] * e.lq[k]
Nm(e) == Min2(e.neigs, Len(e.free))

WhyFrf(e) ==
  LET n == Len(e.K)  nf == Len(e.free) IN
  IF ~ModesOk(e) THEN "H03.harness-error"
  ELSE IF ~Shape(e.X, Len(e.w), 2 * nf + 1) \/ BadM(e.X) THEN "H03.frf-shape"
  ELSE IF \E i \in 1..Len(e.w) : e.X[i][2 * nf + 1] # 10000 * e.w[i] THEN "H03.frf-frequency-column"
  ELSE IF \E i \in 1..Len(e.w) :
        LET full(o, u) == [d \in 1..n |-> IF \E q \in 1..nf : e.free[q] = d
                                          THEN e.X[i][o + (CHOOSE q \in 1..nf : e.free[q] = d)] ELSE 10000 * u]
        IN ~LinOk(e, e.w[i], full(0, e.ub[1]), full(nf, e.ub[2]), VScale(10000, e.fc), VScale(10000, e.fs), Nm(e))
       THEN (IF nf < n THEN "H03.frf-base-excited" ELSE IF nf > Nm(e) THEN "H03.frf-truncated" ELSE "H03.frf")
  ELSE IF e.argchanged THEN "H03.arguments-changed" ELSE ""

\* starting points; e.U all of it in 10^-4, e.nu number of trailing unknowns
Blk(e, r) == [d \in 1..Len(e.K) |-> e.U[(r - 1) * Len(e.K) + d]]
Trail(e, j) == e.U[Len(Layout(e.h)) * Len(e.K) + j]
WhyPredict(e) ==
  LET L == Layout(e.h)  nd == Len(e.K)
      rc == Pos(L, <<1, "c">>)  rs == Pos(L, <<1, "s">>)
      xc == Blk(e, rc)  xs == Blk(e, rs)
      nu == CASE e.eq = "HBM" -> 1 [] e.eq = "HBM_AMP" -> 2 [] e.eq = "HBM_AMP_PHASE" -> 3 [] OTHER -> 4
      wpos == IF e.eq = "VPRNM_AMP_PHASE" THEN 3 ELSE nu
      f1 == CASE e.eq = "HBM" -> 10000 * e.fmag [] OTHER -> Trail(e, 1)
      f2 == CASE e.eq = "HBM" -> 0 [] e.eq = "HBM_AMP" -> 0 [] OTHER -> Trail(e, 2)
      \* force of the problem: f1 F_cos - ..., phase control scales cosine and sine parts separately
      fc == VScale(f1, e.fc)
      fs == IF e.eq \in {"HBM", "HBM_AMP"} THEN VScale(f1, e.fs) ELSE VScale(f2, e.fc)
      extra == IF e.eq = "VPRNM_AMP_PHASE" THEN {e.rhi} ELSE {}
      a1 == Dot(e.recov, xc) * e.wo
      a2 == Dot(e.recov, xs) * e.wo
      t == Dot([i \in 1..nd |-> Abs(e.recov[i])], [i \in 1..nd |-> 1]) * e.wo + 2
  IN
  IF ~ModesOk(e) THEN "H03.harness-error"
  ELSE IF Len(e.U) # Len(L) * nd + nu \/ Bad(e.U) THEN "H03.start-shape"
  ELSE IF Trail(e, wpos) # 10000 * e.w THEN "H03.start-frequency"
  ELSE IF ~LinOk(e, e.w, xc, xs, fc, fs, Nm(e)) THEN "H03.start-response"
  ELSE IF e.eq # "HBM" /\
          ~(LET b1 == a1 \div 10  b2 == a2 \div 10  t2 == t \div 10 + 1 IN
            Near(b1 * b1 + b2 * b2, 1000000 * e.amp * e.amp, 2 * t2 * (Abs(b1) + Abs(b2)) + 2 * t2 * t2 + 4000 * e.amp))
       THEN "H03.start-amplitude"
  ELSE IF e.eq \in {"HBM_AMP_PHASE", "VPRNM_AMP_PHASE"} /\ (Abs(a2) > t \/ a1 < 0) THEN "H03.start-phase"
  ELSE IF e.eq = "VPRNM_AMP_PHASE" /\ Trail(e, 4) # 10000 * e.amp THEN "H03.start-amplitude-unknown"
  ELSE IF e.h[1] = 0 /\ Blk(e, 1) # VScale(10000, e.xstat) THEN "H03.start-static-part"
  ELSE IF \E r \in 1..Len(L) : L[r][1] \notin ({0, 1} \union extra) /\ Blk(e, r) # Zeros(nd) THEN "H03.start-other-harmonics"
  ELSE IF e.eq = "VPRNM_AMP_PHASE"
          /\ LET pc == Pos(L, <<e.rhi, "c">>)  ps == Pos(L, <<e.rhi, "s">>)
                 g(r) == [d \in 1..nd |-> -10000 * e.fnl[(r - 1) * nd + d]]
             IN ~LinOk(e, e.w * e.rhi, Blk(e, pc), Blk(e, ps), g(pc), g(ps), Nm(e))
       THEN "H03.start-superharmonic"
  ELSE IF e.eq = "VPRNM_AMP_PHASE" /\ (e.seenw # 10000 * e.w \/
            \E i \in 1..Len(L) * nd : ~Near(e.seen[i], IF L[(i - 1) \div nd + 1][1] = e.rhi THEN 0 ELSE e.U[i], 1))
       THEN "H03.start-superharmonic-forcing-state"
  ELSE IF e.argchanged THEN "H03.arguments-changed" ELSE ""

Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "samples" -> WhySamples(e)
            [] e.op = "project" -> WhyProject(e)
            [] e.op = "nhc" -> WhyNhc(e)
            [] e.op = "stiff" -> WhyStiff(e)
            [] e.op = "rotate" -> WhyRotate(e)
            [] e.op = "wrap" -> WhyWrap(e)
            [] e.op = "cond" -> WhyCond(e)
            [] e.op = "zero" -> WhyZero(e)
            [] e.op = "frf" -> WhyFrf(e)
            [] e.op = "predict" -> WhyPredict(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
