---------------------------- MODULE ServicesTrace ----------------------------
EXTENDS Services, TraceLib
VARIABLES l, s
\* s : [mats (matrix of each handle), evs (evaluations seen by the solver)]

MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> SumTo(LAMBDA k : a[i][k] * b[k][j], Len(b))]]
Col(a, j) == [i \in 1..Len(a) |-> a[i][j]]
Bad(v) == \E i \in 1..Len(v) : v[i] = BADNUM
BadM(m) == \E i \in 1..Len(m) : Bad(m[i])

WhySolve(e, A) ==
  IF Len(e.x) # Len(A) THEN "S03.solution-size"
  ELSE IF Bad(e.x) THEN "S03.solution-wrong"
  ELSE IF MatVec(A, e.x) # e.b THEN "S03.solution-of-another-system"
  ELSE IF e.argchanged THEN "S03.arguments-changed" ELSE ""

\* eigenpairs scaled: vals integer, vecs * e.vs integer, masses integer
WhyEigs(e) ==
  LET n == Len(e.K)
      want == Min2(e.hi, n - 1) - e.lo + 1
  IN IF Len(e.vals) # want \/ Len(e.vecs) # n \/ \E i \in 1..n : Len(e.vecs[i]) # want THEN "S03.eigs-number-of-results"
     ELSE IF Bad(e.vals) \/ BadM(e.vecs) THEN "S03.eigs-values"
     ELSE IF \E j \in 1..want : e.vals[j] # e.spec[e.lo + j] THEN "S03.eigs-not-the-requested-ones"
     ELSE IF \E j \in 1..want : MatVec(e.K, Col(e.vecs, j)) # VScale(e.vals[j], MatVec(e.M, Col(e.vecs, j))) THEN "S03.eigs-not-eigenvectors"
     ELSE IF \E i, j \in 1..want : Dot(Col(e.vecs, i), MatVec(e.M, Col(e.vecs, j))) # (IF i = j THEN e.vs * e.vs ELSE 0) THEN "S03.eigs-not-mass-normalized"
     ELSE IF e.argchanged THEN "S03.arguments-changed" ELSE ""

\* conditioned problem; cp, rp at scale 4
WhyCond(e) ==
  LET n == Len(e.xc) IN
  IF e.ncalls # 1 THEN "S03.conditioned-number-of-evaluations"
  ELSE IF Bad(e.xp) \/ \E i \in 1..n : e.xp[i] # e.xc[i] * e.cp[i] THEN "S03.conditioned-point"
  ELSE IF Bad(e.Rc) \/ \E i \in 1..Len(e.Rc) : e.Rc[i] # e.rp[i] * e.R[i] THEN "S03.conditioned-residual"
  ELSE IF e.grad # (e.nret = 2) THEN "S03.conditioned-number-of-results"
  ELSE IF e.grad /\ (BadM(e.Jc) \/ \E i, j \in 1..n : e.Jc[i][j] # e.rp[i] * e.J[i][j] * e.cp[j]) THEN "S03.conditioned-jacobian"
  ELSE IF e.argchanged THEN "S03.arguments-changed" ELSE ""

LastGrad(evs) == CHOOSE i \in 1..Len(evs) : evs[i].grad /\ \A j \in i+1..Len(evs) : ~evs[j].grad
\* polynomial problem: A (x - xs) + k (x - xs)^3, xs integer
WhyNsolve(e) ==
  IF ~e.succ THEN "S03.well-conditioned-problem-not-solved"
  ELSE IF e.x # e.xs THEN "S03.solvers-disagree-on-solution"
  ELSE IF s.evs = <<>> THEN "S03.no-evaluation"
  ELSE LET last == s.evs[Len(s.evs)] g == s.evs[LastGrad(s.evs)] IN
       IF e.fR # last.fR THEN "S03.returned-residual"
       ELSE IF e.fJ # g.fJ THEN "S03.returned-jacobian"
       ELSE IF e.base /\ last.fx # e.fx THEN "S03.returned-values-not-at-returned-point"
       ELSE IF e.argchanged THEN "S03.arguments-changed" ELSE ""

Why(e) ==
  CASE e.op = "begin" -> ""
    [] e.op = "factor" -> IF e.argchanged THEN "S03.arguments-changed" ELSE ""
    [] e.op = "fsolve" -> WhySolve(e, s.mats[e.hd])
    [] e.op = "solve" -> WhySolve(e, e.A)
    [] e.op = "eigs" -> WhyEigs(e)
    [] e.op = "cond" -> WhyCond(e)
    [] e.op = "ev" -> ""
    [] e.op = "nsolve" -> WhyNsolve(e)
    [] e.op = "exc" -> "S03.raised-" \o e.exc
StepS(e) ==
  CASE e.op = "begin" -> [mats |-> <<>>, evs |-> <<>>]
    [] e.op = "factor" -> [s EXCEPT !.mats = Append(@, e.A)]
    [] e.op = "ev" -> [s EXCEPT !.evs = Append(@, e)]
    [] e.op = "nsolve" -> [s EXCEPT !.evs = <<>>]
    [] OTHER -> s
Init == l = 1 /\ s = <<>>
Next == /\ l <= N
        /\ LET e == Trace[l] why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ s' = StepS(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<l, s>>
=============================================================================
