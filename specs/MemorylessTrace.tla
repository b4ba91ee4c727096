--------------------------- MODULE MemorylessTrace ---------------------------
(* Binding of the memoryless elements to recorded static and harmonic evaluations (F03) *)
EXTENDS Projection, Memoryless
VARIABLES l
Shape(m, r, q) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = q
\* static evaluation at integer X (velocity for "damp"); F and D integers
WhyForce(e) ==
  LET u == TLCEval(MatVec(e.Q, e.X))
      nl == e.el.nl
      f == [j \in 1..nl |-> Law(e.el, u, u, j)]
      d == TLCEval([j \in 1..nl |-> [k \in 1..nl |-> DU(e.el, u, u, j, k) + DV(e.el, u, u, j, k)]])
      \* in: local dofs whose one-sided derivative from inside was taken
      G(i, k, in) == SumTo(LAMBDA j : SumTo(LAMBDA m : e.T[i][j] * (IF j \in in /\ m = j THEN Inside(e.el) ELSE d[j][m]) * e.Q[m][k], nl), nl)
  IN IF Len(e.F) # Len(e.T) THEN "F03.force-shape"
     ELSE IF e.F # MatVec(e.T, f) THEN "F03.force"
     ELSE IF ~Shape(e.D, Len(e.T), Len(e.X)) THEN "F03.derivative-shape"
     ELSE IF ~\E in \in SUBSET AtEnd(e.el, u) :
                \A i \in 1..Len(e.T), k \in 1..Len(e.X) : e.D[i][k] = G(i, k, in) THEN "F03.derivative"
     ELSE IF e.argchanged THEN "F03.arguments-changed" ELSE ""
\* harmonic evaluation: ug, vg samples of displacement and (at frequency 1) velocity, du, dv those
\* of a direction; e.w frequency
WhyAft(e) ==
  LET L == Layout(e.h)
      nt == Len(e.ug)
      nl == e.el.nl
      ul == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.ug[t])])
      v1 == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.vg[t])])
      vl == TLCEval([t \in 1..nt |-> VScale(e.w, v1[t])])
      du == TLCEval([t \in 1..nt |-> MatVec(e.Q, e.du[t])])
      dv == TLCEval([t \in 1..nt |-> VScale(e.w, MatVec(e.Q, e.dv[t]))])
      g == TLCEval([t \in 1..nt |-> MatVec(e.T, [j \in 1..nl |-> Law(e.el, ul[t], vl[t], j)])])
      dg == TLCEval([t \in 1..nt |-> MatVec(e.T, [j \in 1..nl |->
               SumTo(LAMBDA k : DU(e.el, ul[t], vl[t], j, k) * du[t][k] + DV(e.el, ul[t], vl[t], j, k) * dv[t][k], nl)])])
      dw == TLCEval([t \in 1..nt |-> MatVec(e.T, [j \in 1..nl |->
               SumTo(LAMBDA k : DV(e.el, ul[t], vl[t], j, k) * v1[t][k], nl)])])
  IN IF ~CoefsShape(e.F, L, Len(e.T)) THEN "F03.harmonic-force-shape"
     ELSE IF ~CoefsOk(e.F, g, L, e.sc) THEN "F03.harmonic-force"
     ELSE IF ~CoefsShape(e.JV, L, Len(e.T)) THEN "F03.jacobian-shape"
     ELSE IF ~CoefsOk(e.JV, dg, L, e.scd) THEN "F03.jacobian"
     ELSE IF ~CoefsShape(e.dw, L, Len(e.T)) THEN "F03.frequency-derivative-shape"
     ELSE IF ~CoefsOk(e.dw, dw, L, e.scw) THEN "F03.frequency-derivative"
     ELSE IF e.argchanged THEN "F03.arguments-changed" ELSE ""
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "force" -> WhyForce(e)
            [] e.op = "aft" -> WhyAft(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
