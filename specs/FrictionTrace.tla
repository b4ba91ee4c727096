---------------------------- MODULE FrictionTrace ----------------------------
(* Binding of the spring-slider elements to recorded quasi-static histories (F01) and  *)
(* harmonic evaluations (F02).                                                         *)
EXTENDS Projection, Friction
VARIABLES l, st, pre

Shape(m, r, q) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = q
Force(e, u) == LET s == NewS(e.el, st, u, pre) IN [j \in 1..e.el.nl |-> LForce(e.el, s, u, j)]
AnyTie(e, u) == \E a \in 1..Len(e.el.tan), i \in 1..Len(e.el.sl) : Status(e.el, st, a, i, u, pre) = "tie"
\* entry (times 4) of T D Q
GlobD(e, u, i, k, ch) == SumTo(LAMBDA j : SumTo(LAMBDA m : e.T[i][j] * DLoc(e.el, st, u, pre, j, m, ch) * e.Q[m][k],
                                               e.el.nl), e.el.nl)
DerOk(e, u, ch) == \A i \in 1..Len(e.T), k \in 1..Len(e.X) : Near(e.D[i][k], GlobD(e, u, i, k, ch), e.dt)
WhyForce(e) ==
  LET u == TLCEval(MatVec(e.Q, e.X))
      f == Force(e, u)
      nt == Len(e.el.tan)
      stickall == [a \in 1..nt |-> TRUE]
  IN IF Len(e.F) # Len(e.T) THEN "F01.force-shape"
     ELSE IF \E i \in 1..Len(e.T) : ~Near(e.F[i], Dot(e.T[i], f), e.ft) THEN (IF pre THEN "F01.force-in-frictionless-mode" ELSE "F01.force")
     ELSE IF ~Shape(e.D, Len(e.T), Len(e.X)) THEN "F01.derivative-shape"
     ELSE IF ~AnyTie(e, u) /\ ~DerOk(e, u, stickall) THEN "F01.derivative"
     ELSE IF AnyTie(e, u) /\ Len(e.el.sl) = 1 /\ ~\E ch \in [1..nt -> BOOLEAN] : DerOk(e, u, ch)
          THEN "F01.derivative"
     ELSE IF e.argchanged THEN "F01.arguments-changed" ELSE ""

\* ---------------------------------------------------------------- harmonic (F02)
TanOnly(e, row) == [a \in 1..Len(e.el.tan) |-> row[e.el.tan[a].j]]
MeanOf(rows, nt) == [j \in 1..Len(rows[1]) |-> SumTo(LAMBDA t : rows[t][j], nt) \div nt]
WhyAft(e) ==
  LET L == Layout(e.h)
      nt == Len(e.ug)
      ul == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.ug[t])])
      du == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.dg[t])])
      u0 == IF e.mean THEN TanOnly(e, MeanOf(ul, nt)) ELSE e.u0
      d0 == IF e.mean THEN TanOnly(e, MeanOf(du, nt)) ELSE [a \in 1..Len(e.el.tan) |-> 0]
      r == TLCEval(Steady(e.el, ul, du, u0, d0))
      g == TLCEval([t \in 1..nt |-> MatVec(e.T, r.f[t])])
      dg == TLCEval([t \in 1..nt |-> MatVec(e.T, r.d[t])])
  IN IF ~CoefsShape(e.F, L, Len(e.T)) THEN "F02.force-shape"
     ELSE IF ~CoefsOk(e.F, g, L, e.sc) THEN "F02.force"
     ELSE IF e.grad /\ ~CoefsShape(e.JV, L, Len(e.T)) THEN "F02.jacobian-shape"
     ELSE IF e.grad /\ ~r.tie /\ ~CoefsOk(e.JV, dg, L, e.scd) THEN "F02.jacobian"
     ELSE IF e.grad /\ ~(Len(e.dw) = Len(L) * Len(e.T) /\ \A i \in 1..Len(e.dw) : e.dw[i] = 0) THEN "F02.frequency-derivative"
     ELSE IF e.argchanged THEN "F02.arguments-changed" ELSE ""

Why(e) == CASE e.op = "begin" -> ""
            [] e.op \in {"init", "pre", "real", "other"} -> ""
            [] e.op = "force" -> WhyForce(e)
            [] e.op = "aft" -> WhyAft(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1 /\ st = <<>> /\ pre = FALSE
Step(e) == CASE e.op = "begin" -> st' = Zero(e.el) /\ pre' = FALSE
             [] e.op = "init" -> st' = Zero(e.el) /\ UNCHANGED pre
             [] e.op = "pre" -> pre' = TRUE /\ UNCHANGED st
             [] e.op = "real" -> pre' = FALSE /\ UNCHANGED st
             [] e.op = "force" /\ e.upd -> st' = TLCEval(Advance(e.el, st, MatVec(e.Q, e.X), pre)) /\ UNCHANGED pre
             [] OTHER -> UNCHANGED <<st, pre>>
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ Step(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
                   /\ UNCHANGED <<st, pre>>
Spec == Init /\ [][Next]_<<l, st, pre>>
=============================================================================
