----------------------------- MODULE NewtonTrace -----------------------------
(* Recorded solves.  The environment (the function being solved) is scripted with      *)
(* integer residuals and unimodular Jacobians, so every iterate is an exact rational   *)
(* and is predicted by the Newton / BFGS recursion below.                              *)
(* FOCUS = S01: iteration, verdict, counts.  FOCUS = S02: line search.                 *)
EXTENDS Newton, LineSearch, Rat, TraceLib

Focus == IOEnv.FOCUS
On(p) == Focus = p
VARIABLES l, c, s, n
\* n : numbers  [x, d (full step), b (line search), ss, ys (BFGS pairs), ji, r, rprev,
\*               sprev, r0, u0, e0, conv, acc]

Grid == c.grid
XV(ints) == RVec(ints, Grid)
RR(ints) == RVec(ints, 1)

\* ---- BFGS direction: inverse Hessian from the stored Jacobian inverse and the pairs
RECURSIVE Down(_, _, _, _)
Down(k, q, ss, ys) ==   \* returns <<q, alphas>> processing pairs k..1
  IF k = 0 THEN <<q, <<>>>>
  ELSE LET p == RDot(ss[k], ys[k])
           al == RDiv(RDot(ss[k], q), p)
           rest == Down(k - 1, RVSub(q, RVScale(al, ys[k])), ss, ys)
       IN <<rest[1], Append(rest[2], al)>>
RECURSIVE Up(_, _, _, _, _)
Up(k, q, al, ss, ys) ==
  IF k > Len(ss) THEN q
  ELSE LET be == RDiv(RDot(ys[k], q), RDot(ss[k], ys[k]))
       IN Up(k + 1, RVAdd(q, RVScale(RSub(al[k], be), ss[k])), al, ss, ys)
Direction(r, ji, ss, ys) ==
  LET d == Down(Len(ss), RVNeg(r), ss, ys)
  IN Up(1, RMatVec(ji, d[1]), d[2], ss, ys)

\* ---- measures; "any" inside a 3 % band around the tolerance
Cmp(sq, tsq) == \* sq < tsq, both rationals
  IF RLt(RMul(sq, <<33, 32>>), tsq) THEN "yes"
  ELSE IF RLt(RMul(tsq, <<33, 32>>), sq) THEN "no" ELSE "any"
Sq(a) == RMul(a, a)
Tol(k) == <<c.tol[k][1], c.tol[k][2]>>
Measure(k, usq, rsq, e, u0, r0, e0, i) ==
  CASE k = "xtol" -> Cmp(usq, Sq(Tol(k)))
    [] k = "rtol" -> Cmp(rsq, Sq(Tol(k)))
    [] k = "etol" -> IF i = 0 THEN "no" ELSE Cmp(RAbsV(e), Tol(k))
    [] k = "xtol_rel" -> IF u0[1] = 0 THEN "any" ELSE Cmp(usq, RMul(Sq(Tol(k)), u0))
    [] k = "rtol_rel" -> IF r0[1] = 0 THEN "any" ELSE Cmp(rsq, RMul(Sq(Tol(k)), r0))
    [] k = "etol_rel" -> IF i = 0 THEN "no" ELSE IF e0[1] = 0 THEN "any"
                         ELSE Cmp(RAbsV(e), RMul(Tol(k), RAbsV(e0)))
Verdict(list, usq, rsq, e, u0, r0, e0, i) ==
  LET ms == {Measure(list[j], usq, rsq, e, u0, r0, e0, i) : j \in 1..Len(list)}
  IN IF "yes" \in ms THEN "yes" ELSE IF "any" \in ms THEN "any" ELSE "no"

\* the step (possibly a fraction) is taken
Moved(nn, num, den) ==
  LET sp == RVScale(Norm(num, den), nn.d)
  IN [nn EXCEPT !.x = RVAdd(nn.x, sp), !.sprev = sp, !.rprev = nn.r]

\* pending test is resolved by what happens next: continuing means it did not hold
Resolve(stop, acc) == Tested(c, s, stop, acc)
Pending == s.ph = "test"
\* state in which the next evaluation is judged
Sx == IF Pending THEN Resolve(FALSE, FALSE) ELSE s

\* projected residuals as integers (multiples of 1/Grid)
GInt(v) == (v[1] * Grid) \div v[2]

XOk(x) == XV(x) = n.x

LsPoint == RVAdd(n.x, RVScale(Norm(Probe([c EXCEPT !.iters = c.ls], n.b), Pow2(c.ls)), n.d))
LsC == [c EXCEPT !.iters = c.ls]

WhyEval(e) ==
  IF s.ph = "ls" THEN
     IF e.g THEN "S02.line-search-requests-gradient"
     ELSE IF e.x # [i \in 1..Len(e.x) |-> 0] /\ BADNUM \in {e.x[i] : i \in 1..Len(e.x)} THEN "S02.probe-undefined"
     ELSE IF XV(e.x) # LsPoint THEN
        IF n.b.ph = "full" THEN "S02.first-probe-is-not-the-full-step" ELSE "S02.bisection-point"
     ELSE ""
  ELSE IF s.ph = "done" THEN "S01.evaluation-after-undefined-values"
  ELSE IF Pending /\ n.conv = "yes" THEN "S01.continued-although-converged"
  ELSE IF Pending /\ s.i + 1 >= c.max THEN "S01.too-many-iterations"
  ELSE IF BADNUM \in {e.x[i] : i \in 1..Len(e.x)} THEN
       IF c.ls > 0 THEN "S02.iterate-undefined" ELSE "S01.iterate-undefined"
  ELSE IF ~XOk(e.x) THEN
     IF c.ls > 0 THEN "S02.accepted-step-is-not-that-fraction"
     ELSE IF Len(n.ss) > 0 THEN "S01.quasi-newton-iterate" ELSE "S01.newton-iterate"
  ELSE IF e.g # WantsJacobian(Sx) THEN "S01.jacobian-cycle"
  ELSE ""

StepEval(e) ==
  IF s.ph = "ls" THEN
     LET g == RDot(n.d, RR(e.r))
         b1 == Eval(LsC, n.b, GInt(g))
     IN IF b1.ph = "done"
        THEN <<[s EXCEPT !.ph = "test"], Moved([n EXCEPT !.b = b1], b1.out, Pow2(c.ls))>>
        ELSE <<s, [n EXCEPT !.b = b1]>>
  ELSE LET sx == Sx IN
       LET nan == e.nan
           s1 == Evaluated(c, sx, nan)
       IN IF nan THEN <<s1, n>>
          ELSE LET r  == RR(e.r)
                   ji == IF sx.k = 0 THEN RMat(e.ji) ELSE n.ji
                   ss == IF sx.k = 0 THEN <<>> ELSE Append(n.ss, n.sprev)
                   ys == IF sx.k = 0 THEN <<>> ELSE Append(n.ys, RVSub(r, n.rprev))
                   d  == Direction(r, ji, ss, ys)
                   usq == RDot(d, d)  rsq == RDot(r, r)
                   en == IF sx.i = 0 THEN <<0, 1>> ELSE RDot(r, n.sprev)
                   u0 == IF sx.i = 0 THEN usq ELSE n.u0
                   r0 == IF sx.i = 0 THEN rsq ELSE n.r0
                   e0 == IF sx.i = 1 THEN en ELSE n.e0
                   g0 == RDot(d, r)
                   n1 == [n EXCEPT !.d = d, !.ji = ji, !.ss = ss, !.ys = ys, !.r = r,
                            !.u0 = u0, !.r0 = r0, !.e0 = e0,
                            !.conv = Verdict(c.stop, usq, rsq, en, u0, r0, e0, sx.i),
                            !.acc = Verdict(c.acc, usq, rsq, en, u0, r0, e0, sx.i),
                            !.b = Begin(LsC, GInt(g0))]
               IN IF c.ls > 0 THEN <<s1, n1>> ELSE <<s1, Moved(n1, 1, 1)>>

\* possible outcomes at return
WhyRet(e) ==
  IF s.ph = "ls" THEN "S02.line-search-ended-early"
  ELSE IF s.ph = "eval" THEN "S01.returned-without-iterating"
  ELSE
    LET last == s.i + 1 >= c.max
        may(out) == CASE out = TRUE -> \/ n.conv # "no" \/ (last /\ n.acc # "no")
                      [] OTHER -> n.conv # "yes" /\ last /\ n.acc # "yes"
    IN IF s.ph = "done" /\ s.out = "nan" THEN
            IF e.succ THEN "S01.success-with-undefined-values"
            ELSE IF e.nf # s.nf \/ e.nj # s.nj THEN "S01.reported-counts"
            ELSE IF ~e.conf THEN "S01.settings-changed" ELSE ""
       ELSE IF ~last /\ n.conv = "no" THEN
            IF e.succ THEN "S01.success-without-met-measure" ELSE "S01.gave-up-early"
       ELSE IF ~may(e.succ) THEN
            IF e.succ THEN "S01.success-without-met-measure" ELSE "S01.failure-despite-met-measure"
       ELSE IF e.nf # s.nf \/ e.nj # s.nj THEN "S01.reported-counts"
       ELSE IF BADNUM \in {e.x[i] : i \in 1..Len(e.x)} \/ ~XOk(e.x) THEN
            IF c.ls > 0 THEN "S02.returned-point" ELSE "S01.returned-point"
       ELSE IF ~e.conf THEN "S01.settings-changed"
       ELSE ""

\* a direct call of line_search
WhyLs(e) ==
  IF n.b.ph # "done" THEN "S02.line-search-ended-early"
  ELSE IF e.alpha # n.b.out THEN "S02.returned-fraction"
  ELSE IF e.nf # n.b.n THEN "S02.reported-evaluations"
  ELSE IF ~e.rok THEN "S02.reported-residual-not-of-returned-fraction"
  ELSE ""

WhyExc(e) == IF ~e.expected THEN IF On("S01") THEN "S01.raised-" \o e.exc ELSE "S02.raised-" \o e.exc
             ELSE IF ~e.conf THEN "S01.settings-changed-by-failing-call" ELSE ""

Rel(w) == IF w = "" THEN "" ELSE IF SubSeq(w, 1, 3) = Focus THEN w ELSE "~" \o w

Raw(e) == CASE e.op = "begin" -> ""
            [] e.op = "eval" -> WhyEval(e)
            [] e.op = "ret" -> WhyRet(e)
            [] e.op = "ls" -> WhyLs(e)
            [] e.op = "exc" -> WhyExc(e)

N0(e) == [x |-> RVec(e.x0, e.c.grid), d |-> IF e.c.direct THEN RVec(e.dx, 1) ELSE <<>>,
          b |-> IF e.c.direct THEN Begin([e.c EXCEPT !.iters = e.c.ls], e.c.grid * Dot(e.dx, e.r0))
                ELSE Begin(e.c, 0),
          ss |-> <<>>, ys |-> <<>>, ji |-> <<>>, r |-> <<>>, rprev |-> <<>>, sprev |-> <<>>,
          r0 |-> <<0, 1>>, u0 |-> <<0, 1>>, e0 |-> <<0, 1>>, conv |-> "no", acc |-> "no"]

Init == l = 1 /\ c = <<>> /\ s = <<>> /\ n = <<>>
Next ==
  /\ l <= N
  /\ LET e == Trace[l]
         why == Rel(Raw(e))
     IN IF why = ""
        THEN /\ l' = l + 1
             /\ IF e.op = "begin"
                THEN /\ c' = e.c /\ n' = N0(e)
                     /\ s' = IF e.c.direct THEN [NStart(e.c) EXCEPT !.ph = "ls"] ELSE NStart(e.c)
                ELSE /\ UNCHANGED c
                     /\ IF e.op = "eval" /\ ~e.raise
                        THEN LET q == StepEval(e) IN s' = q[1] /\ n' = q[2]
                        ELSE UNCHANGED <<s, n>>
        ELSE \* clauses of the other property end the case silently
             /\ IF SubSeq(why, 1, 1) = "~" THEN TRUE ELSE PrintT(<<"REJECT", e.case, l, why>>)
             /\ l' = NextBegin(l + 1)
             /\ UNCHANGED <<c, s, n>>
Spec == Init /\ [][Next]_<<l, c, s, n>>
=============================================================================
