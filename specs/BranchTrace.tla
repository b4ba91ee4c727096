----------------------------- MODULE BranchTrace -----------------------------
(* Following a solution branch (C03).                                                  *)
(* Exact part: predictor and corrector equations at integer states.                    *)
(* Run part: a run is a walk along the branch; state = previous point, chord, position *)
(* on the branch.  Vectors in fixed point (1/1000), inner products in 1/400.           *)
EXTENDS TraceLib
VARIABLES l, s, c

Bad(v) == \E i \in 1..Len(v) : v[i] = BADNUM
Front(v) == SubSeq(v, 1, Len(v) - 1)
Last(v) == v[Len(v)]
Had(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]

\* ------------------------------------------------------------- exact: predictor
\* e.d = direction * e.p, weights (8 - bn)/8 for the unknowns (relative to |x|^2 = W), bn/8
Weighted(bn, W, u, v) == (8 - bn) * Dot(Front(u), Front(v)) + bn * W * Last(u) * Last(v)
WhyPredict(e) ==
  LET W == Dot(e.xc, e.xc) IN
  IF Bad(e.d) THEN "C03.predicted-direction"
  ELSE IF \E i \in 1..Len(e.J) : Dot(e.J[i], Had(e.cp, e.d)) # 0 THEN "C03.direction-not-tangent"
  ELSE IF Weighted(e.bn, W, e.d, e.d) # 8 * W * e.p * e.p THEN "C03.direction-not-unit"
  ELSE IF Weighted(e.bn, W, e.d, e.ch) < 0 THEN "C03.direction-turns-back"
  ELSE IF e.argchanged THEN "C03.arguments-changed" ELSE ""

\* ------------------------------------------------------------- exact: corrector
\* step ds = 1/k (k integer), W = |x0|^2, scale 8 W
Arc(e) ==
  LET W == Dot(Front(e.x0), Front(e.x0))
      dx == VSub(e.x, e.x0)
  IN IF e.kind = "pseudo"
     THEN e.k * e.k * Weighted(e.bn, W, dx, dx) - 8 * W
     ELSE Weighted(e.bn, W, VSub(VScale(e.k, dx), e.dir), e.dir)
ArcGrad(e) ==
  LET W == Dot(Front(e.x0), Front(e.x0))
      dx == VSub(e.x, e.x0)
      v == IF e.kind = "pseudo" THEN VScale(2 * e.k * e.k, dx) ELSE VScale(e.k, e.dir)
      n == Len(v)
  IN [i \in 1..n |-> IF i < n THEN (8 - e.bn) * v[i] ELSE e.bn * W * v[i]]
WhyCorrect(e) ==
  LET n == Len(e.x) IN
  IF Bad(e.Raug) \/ Len(e.Raug) # n THEN "C03.corrector-residual"
  ELSE IF \E i \in 1..n-1 : e.Raug[i] # e.rp * e.R[i] THEN "C03.corrector-equations"
  ELSE IF Last(e.Raug) # Arc(e) THEN "C03.corrector-constraint"
  ELSE IF e.grad # (e.nret = 2) THEN "C03.corrector-number-of-results"
  ELSE IF e.argchanged THEN "C03.arguments-changed"
  ELSE IF ~e.grad THEN ""
  ELSE IF Len(e.Jaug) # n \/ \E i \in 1..n : Bad(e.Jaug[i]) THEN "C03.corrector-jacobian"
  ELSE IF \E i \in 1..n-1 : e.Jaug[i] # VScale(e.rp, Had(e.J[i], e.cp)) THEN "C03.corrector-jacobian-equations"
  ELSE IF Last(e.Jaug) # ArcGrad(e) THEN "C03.corrector-jacobian-constraint" ELSE ""
WhyArc(e) ==
  IF e.r # Arc(e) THEN "C03.constraint-residual"
  ELSE IF e.g # ArcGrad(e) THEN "C03.constraint-gradient" ELSE ""

\* ------------------------------------------------------------------------- runs
MulDiv(a, b, d) == (a \div d) * b + ((a % d) * b) \div d
\* weighted inner product in 1/400 of fixed-point vectors u, v; x0 the conditioned base point
Inner(bn, x0, u, v) ==
  LET B0 == Dot(Front(x0), Front(x0))
      k == IF B0 > 40000000 THEN 128 ELSE 16
      A == Dot(Front(u), Front(v)) \div k
      B == B0 \div k
      q == MulDiv(A, 400, B)
      m == (Last(u) * Last(v)) \div 2500
  IN ((8 - bn) * q + bn * m) \div 8

WhyStep(e) ==
  IF Bad(e.xc0) \/ Bad(e.dir) \/ Bad(e.step) \/ Bad(e.cp) THEN "C03.undefined-values"
  ELSE IF \E i \in 1..Len(e.cp) : ~Near(e.cp[i], IF c.dyn THEN Max2(c.c0[i], Abs(e.prev[i])) ELSE c.c0[i], 2)
       THEN "C03.conditioning"
  ELSE IF \E i \in 1..Len(e.tan) : ~Near(e.tan[i], 0, 4) THEN "C03.direction-not-tangent"
  ELSE IF ~Near(Inner(e.bn, e.xc0, e.dir, e.dir), 400, 10) THEN "C03.direction-not-unit"
  ELSE IF s.n > 0 /\ Inner(e.bn, e.xc0, e.dir, e.chord) < -6 THEN "C03.direction-turns-back"
  ELSE IF s.n = 0 /\ e.dir[Len(e.dir)] * c.dir < -2 THEN "C03.first-direction"
  ELSE IF ~e.succ THEN ""
  ELSE IF \E i \in 1..Len(e.res) : ~Near(e.res[i], 0, 40) THEN "C03.point-not-on-branch"
  ELSE IF c.kind = "ortho" /\ ~Near(Inner(e.bn, e.xc0, VSub(e.step, e.dir), e.dir), 0, 10)
       THEN "C03.orthogonality-condition"
  ELSE IF c.kind = "pseudo" /\ ~Near(Inner(e.bn, e.xc0, e.step, e.step), 400, 10)
       THEN "C03.arclength-condition"
  ELSE IF (e.pos - s.pos) * c.up < 0 THEN "C03.branch-turned-back"
  ELSE IF ~e.gradok THEN "C03.corrector-with-and-without-jacobian-differ"
  ELSE ""

WhyEnd(e) ==
  IF ~e.reached THEN "C03.branch-not-followed-to-the-end"
  ELSE IF ~e.folds THEN "C03.branch-not-followed-through-folds" ELSE ""

\* two runs of the same problem in different units
WhyScaled(e) ==
  IF Len(e.a) # Len(e.b) THEN "C03.rescaling-changes-number-of-points"
  ELSE IF \E i \in 1..Len(e.a) : \E j \in 1..Len(e.a[i]) : ~Near(e.a[i][j], e.b[i][j], 20)
       THEN "C03.rescaling-changes-results" ELSE ""

\* one attempt of a run with a scripted solver (failures, several weights): whichever weight is in use, the
\* direction is tangent at the last accepted point and does not turn against the last accepted step
WhyTry(e) ==
  IF Bad(e.xc0) \/ Bad(e.dir) \/ Bad(e.chord) \/ Bad(e.tan) THEN "C03.undefined-values"
  ELSE IF \E i \in 1..Len(e.tan) : ~Near(e.tan[i], 0, 4) THEN "C03.direction-not-tangent"
  ELSE IF \A i \in 1..Len(e.bns) : Inner(e.bns[i], e.xc0, e.dir, e.chord) < -6
       THEN IF e.first THEN "C03.first-direction" ELSE "C03.direction-turns-back" ELSE ""

\* the same run twice with one object: nothing is carried over from the first one
WhyAgain(e) ==
  IF Len(e.a) # Len(e.b) THEN "C03.second-run-of-one-object-differs"
  ELSE IF \E i \in 1..Len(e.a) : \E j \in 1..Len(e.a[i]) : ~Near(e.a[i][j], e.b[i][j], 2)
       THEN "C03.second-run-of-one-object-differs" ELSE ""

Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "predict" -> WhyPredict(e)
            [] e.op = "correct" -> WhyCorrect(e)
            [] e.op = "arc" -> WhyArc(e)
            [] e.op = "step" -> WhyStep(e)
            [] e.op = "end" -> WhyEnd(e)
            [] e.op = "scaled" -> WhyScaled(e)
            [] e.op = "again" -> WhyAgain(e)
            [] e.op = "try" -> WhyTry(e)
            [] e.op = "exc" -> "C03.raised-" \o e.exc
StepS(e) == CASE e.op = "begin" -> [n |-> 0, pos |-> e.pos]
              [] e.op = "step" /\ e.succ -> [n |-> s.n + 1, pos |-> e.pos]
              [] OTHER -> s
Init == l = 1 /\ s = <<>> /\ c = <<>>
Next == /\ l <= N
        /\ LET e == Trace[l] why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ s' = StepS(e) /\ c' = IF e.op = "begin" THEN e ELSE c
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1) /\ UNCHANGED <<s, c>>
Spec == Init /\ [][Next]_<<l, s, c>>
=============================================================================
