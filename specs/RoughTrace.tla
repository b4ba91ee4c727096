----------------------------- MODULE RoughTrace -----------------------------
(* Binding of the rough-contact element to recorded histories and harmonic evaluations  *)
(* (F04).  el.exact: elastic asperities with constant friction, exact integers.         *)
(* Otherwise forces are in units of 1/100, contact radii in 1/1000, and the normal curve *)
(* is learned: memo holds <<approach, largest approach (-1: first loading), force>>.    *)
EXTENDS Projection, RoughContact
VARIABLES l, st, pre, um, memo, seen, f0
vars == <<l, st, pre, um, memo, seen, f0>>

Shape(m, r, q) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = q
\* ------------------------------------------------------------------ exact
Unit3(j) == [i \in 1..3 |-> IF i = j THEN 1 ELSE 0]
LocD(e, u, a, j) == IF a = 3 THEN (IF j = 3 THEN RDNn(e.el, u) ELSE 0)
                    ELSE RSum(LAMBDA i : e.el.w[i] * RDf(e.el, st, u, Unit3(j), <<0, 0>>, 0, i, a, pre), Len(e.el.gaps))
WhyExact(e) ==
  LET u == TLCEval(MatVec(e.Q, e.X))
      f == RForce(e.el, RNew(e.el, st, u, pre), u)
      d == TLCEval([a \in 1..3 |-> [j \in 1..3 |-> LocD(e, u, a, j)]])
      G(i, k) == SumTo(LAMBDA a : SumTo(LAMBDA j : e.T[i][a] * d[a][j] * e.Q[j][k], 3), 3)
  IN IF Len(e.F) # Len(e.T) THEN "F04.force-shape"
     ELSE IF e.F # MatVec(e.T, f) THEN (IF pre THEN "F04.force-in-frictionless-mode" ELSE "F04.force")
     ELSE IF ~Shape(e.D, Len(e.T), Len(e.X)) THEN "F04.derivative-shape"
     ELSE IF ~RTie(e.el, st, u, pre) /\ \E i \in 1..Len(e.T), k \in 1..Len(e.X) : e.D[i][k] # G(i, k) THEN "F04.derivative"
     ELSE IF e.argchanged THEN "F04.arguments-changed" ELSE ""
\* --------------------------------------------------------------- relational
MinGap(el) == CHOOSE g \in {el.gaps[i] : i \in 1..Len(el.gaps)} : \A i \in 1..Len(el.gaps) : g <= el.gaps[i]
Class(un) == IF un >= um THEN -1 ELSE um
MemoBad(el, un, fn) ==
  LET c == Class(un) IN
  IF \E i \in 1..Len(memo) : memo[i][2] = c /\ memo[i][1] = un /\ ~Near(memo[i][3], fn, 2)
  THEN (IF c = -1 THEN "F04.first-loading-curve-not-rejoined" ELSE "F04.unloading-curve-not-repeated")
  ELSE IF \E i \in 1..Len(memo) : memo[i][2] = c /\ ((memo[i][1] < un /\ memo[i][3] > fn) \/ (memo[i][1] > un /\ memo[i][3] < fn))
  THEN "F04.normal-force-not-growing"
  ELSE IF c = -1 /\ \E i \in 1..Len(memo) : memo[i][2] = c /\ memo[i][1] < un /\ memo[i][3] >= fn /\ un > MinGap(el)
  THEN "F04.normal-force-not-growing"
  \* (forces below 1.00 are not compared in proportion)
  ELSE IF \E i \in 1..Len(memo) : memo[i][1] = un /\ c # -1 /\ memo[i][2] = -1
             /\ (fn > memo[i][3] + 2 \/ (el.plastic /\ c - MinGap(el) >= 9 /\ un - MinGap(el) <= 4 /\ memo[i][3] > 100
                                          /\ fn > memo[i][3] - memo[i][3] \div 33))
  THEN "F04.unloading-not-below-first-loading"
  ELSE ""
\* unloading law of a single asperity from its largest approach m (a square) with force Fm there:
\* (fn / Fm)^2 = y^3,  y = 1 + (un - m) Fe / (m Fm),  Fe elastic force at m
UnloadOk(el, un, fn) ==
  LET g == MinGap(el)  m == um - g  d == un - g IN
  IF Len(el.gaps) # 1 \/ un >= um \/ m \notin {4, 9, 16} THEN TRUE
  ELSE IF ~\E i \in 1..Len(memo) : memo[i][1] = um /\ memo[i][2] = -1 THEN TRUE
  ELSE LET Fm == memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = um /\ memo[i][2] = -1][3]
           Fe == RFn(Root(m)) * el.w[1]
           q4 == ((Fe * 500000) \div Fm) * 2
           y4 == 10000 + ((d - m) * q4) \div m
           r4 == (fn * 1000) \div (Fm \div 10)
           y3 == (((y4 * y4) \div 10000) * y4) \div 10000
       IN IF Fm < 1000 THEN TRUE
          ELSE IF y4 <= 0 THEN fn <= 2 + (Fm \div 10000)
          ELSE Near((r4 * r4) \div 10000, y3, 30)
TanOk(e) == \* constant-friction law of a single asperity; aux a = contact radius (1/1000)
  LET lim == IF pre THEN 0 ELSE (e.el.m * e.fl[3]) \div 4
      p(k) == (3 * e.a[1] * (e.u[k] - st.up[k]) * e.el.w[1]) \div 10 + f0[k]
  IN \A k \in 1..2 : Near(e.fl[k], RClip(p(k), lim), 4 + Abs(e.u[k] - st.up[k]) * 2 * e.el.w[1])
WhyRel(e) ==
  LET un == e.u[3]  fn == e.fl[3]  el == e.el IN
  IF Len(e.fl) # 3 \/ \E k \in 1..3 : e.fl[k] = BADNUM THEN "F04.force-shape"
  ELSE IF un <= MinGap(el) /\ e.fl # <<0, 0, 0>> THEN "F04.force-when-separated"
  ELSE IF fn < 0 THEN "F04.normal-force-negative"
  ELSE IF MemoBad(el, un, fn) # "" THEN MemoBad(el, un, fn)
  ELSE IF ~UnloadOk(el, un, fn) THEN "F04.unloading-law"
  ELSE IF pre /\ (e.fl[1] # 0 \/ e.fl[2] # 0) THEN "F04.friction-in-frictionless-mode"
  ELSE IF \E k \in 1..2 : 4 * Abs(e.fl[k]) > el.m * fn + 4 + (IF el.mif THEN fn \div 50 ELSE 0) THEN "F04.friction-above-limit"
  ELSE IF ~el.mif /\ Len(el.gaps) = 1 /\ ~TanOk(e) THEN "F04.friction-law"
  ELSE IF \E i \in 1..Len(seen) : seen[i][1] = e.u /\ ~(\A k \in 1..3 : Near(seen[i][2][k], e.fl[k], 1))
       THEN "F04.trial-changed-history"
  ELSE IF ~(Len(e.jv) = Len(e.fd) /\ \A i \in 1..Len(e.fd) : Near(e.jv[i], e.fd[i], 4)) THEN "F04.derivative"
  ELSE IF e.argchanged THEN "F04.arguments-changed" ELSE ""

\* --------------------------------------------------------------- harmonic
WhyAftExact(e) ==
  LET L == Layout(e.h)
      nt == Len(e.ug)
      ul == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.ug[t])])
      du == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.dg[t])])
      r == TLCEval(RSteady(e.el, ul, du, e.u0))
      g == TLCEval([t \in 1..nt |-> MatVec(e.T, r.f[t])])
      dg == TLCEval([t \in 1..nt |-> MatVec(e.T, r.d[t])])
  IN IF ~CoefsShape(e.F, L, Len(e.T)) THEN "F04.harmonic-force-shape"
     ELSE IF ~CoefsOk(e.F, g, L, e.sc) THEN "F04.harmonic-force"
     ELSE IF e.grad /\ ~CoefsShape(e.JV, L, Len(e.T)) THEN "F04.jacobian-shape"
     ELSE IF e.grad /\ ~r.tie /\ ~CoefsOk(e.JV, dg, L, e.scd) THEN "F04.jacobian"
     ELSE IF e.grad /\ \E i \in 1..Len(e.dw) : e.dw[i] # 0 THEN "F04.frequency-derivative"
     ELSE IF e.argchanged THEN "F04.arguments-changed" ELSE ""
\* harmonic force (local) is the projection of the stepped law; jv and fd: derivative along a direction
WhyAftRel(e) ==
  LET L == Layout(e.h) IN
  IF ~CoefsShape(e.F, L, 3) THEN "F04.harmonic-force-shape"
  ELSE IF ~CoefsOkRounded(e.F, e.steps, L, e.sc) THEN "F04.harmonic-force-differs-from-stepping"
  ELSE IF Len(e.fd) > 0 /\ ~(Len(e.jv) = Len(e.fd) /\ \A i \in 1..Len(e.fd) : Near(e.jv[i], e.fd[i], 4)) THEN "F04.jacobian"
  ELSE IF e.grad /\ \E i \in 1..Len(e.dw) : e.dw[i] # 0 THEN "F04.frequency-derivative"
  ELSE IF e.argchanged THEN "F04.arguments-changed" ELSE ""
WhySame(e) == IF Len(e.p) # Len(e.q) \/ \E i \in 1..Len(e.p) : \E k \in 1..Len(e.p[i]) : ~Near(e.p[i][k], e.q[i][k], 1)
              THEN "F04.uncommitted-evaluations-change-history" ELSE ""

Why(e) == CASE e.op = "begin" -> ""
            [] e.op \in {"init", "pre", "real", "other"} -> ""
            [] e.op = "force" -> IF e.el.exact THEN WhyExact(e) ELSE WhyRel(e)
            [] e.op = "aft" -> IF e.el.exact THEN WhyAftExact(e) ELSE WhyAftRel(e)
            [] e.op = "same" -> WhySame(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1 /\ st = <<>> /\ pre = FALSE /\ um = 0 /\ memo = <<>> /\ seen = <<>> /\ f0 = <<0, 0>>
Step(e) ==
  CASE e.op = "begin" -> st' = RZero(e.el) /\ pre' = FALSE /\ um' = 0 /\ memo' = <<>> /\ seen' = <<>> /\ f0' = <<0, 0>>
    [] e.op = "init" -> st' = RZero(e.el) /\ um' = 0 /\ seen' = <<>> /\ f0' = <<0, 0>> /\ UNCHANGED <<pre, memo>>
    [] e.op = "pre" -> pre' = TRUE /\ seen' = <<>> /\ UNCHANGED <<st, um, memo, f0>>
    [] e.op = "real" -> pre' = FALSE /\ seen' = <<>> /\ UNCHANGED <<st, um, memo, f0>>
    [] e.op = "force" /\ e.el.exact ->
         /\ IF e.upd THEN st' = TLCEval(RAdvance(e.el, st, MatVec(e.Q, e.X), pre)) ELSE UNCHANGED st
         /\ UNCHANGED <<pre, um, memo, seen, f0>>
    [] e.op = "force" /\ ~e.el.exact ->
         /\ memo' = Append(memo, <<e.u[3], Class(e.u[3]), e.fl[3]>>)
         /\ IF e.upd THEN /\ st' = [st EXCEPT !.up = <<e.u[1], e.u[2]>>]
                          /\ um' = Max2(um, e.u[3]) /\ seen' = <<>> /\ f0' = <<e.fl[1], e.fl[2]>>
            ELSE seen' = Append(seen, <<e.u, e.fl>>) /\ UNCHANGED <<st, um, f0>>
         /\ UNCHANGED pre
    [] OTHER -> UNCHANGED <<st, pre, um, memo, seen, f0>>
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ Step(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
                   /\ UNCHANGED <<st, pre, um, memo, seen, f0>>
Spec == Init /\ [][Next]_vars
=============================================================================
