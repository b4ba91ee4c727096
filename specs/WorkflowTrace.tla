---------------------------- MODULE WorkflowTrace ----------------------------
(* Recorded workflows (W01): assemble, prestress, follow, save, post-process, compare.      *)
EXTENDS Workflow
VARIABLES l, m
S == Trace[m.b].S
Bad(v) == \E i \in 1..Len(v) : v[i] = BADNUM
Col(F, d) == [t \in 1..Len(F) |-> F[t][d]]
WhyPt(e) ==
  IF Bad(e.p.u) \/ Bad(e.p.x) \/ Bad(e.p.phi) \/ e.p.w = BADNUM \/ e.p.xi = BADNUM
     \/ \E i \in 1..Len(e.p.fh) : \E r \in 1..Len(e.p.fh[i]) : Bad(e.p.fh[i][r]) THEN "W01.reported-point-undefined"
  ELSE IF ~Holds(S, e.p, e.form) THEN "W01.condition-of-formulation-not-met"
  ELSE IF ~Balanced(S, e.p, e.form) THEN "W01.reported-point-not-in-equilibrium"
  ELSE IF e.form \in {"vprnm3", "vphase3"} /\ ~Quadrature(S, e.p, e.low, 3) THEN "W01.phase-condition-not-met"
  ELSE IF m.n = 0 /\ ~Near(e.lam, e.lam0, 1) THEN "W01.first-point-elsewhere" ELSE ""
WhyLaw(e) ==
  LET f == S.forces[e.i] IN
  IF \E t \in 1..Len(e.u) : Bad(e.u[t]) \/ Bad(e.f[t]) THEN "W01.local-history-undefined"
  ELSE IF CASE f.kind = "jenkins" -> SliderLaw(Col(e.u, 1), Col(e.f, 1), f.k, 10000 * f.lim)
            [] f.kind = "cubic" -> CubicLaw(Col(e.u, 1), Col(e.f, 1), f.k)
            [] f.kind = "E2" -> /\ NormalLaw(Col(e.u, 2), Col(e.f, 2), f.kn)
                                /\ ConeLaw(Col(e.f, 2), Col(e.f, 1), f.mn, f.md)
            [] OTHER -> TRUE THEN "" ELSE "W01.local-force-against-its-law"
WhyEnd(e) ==
  IF e.n # m.n THEN "W01.points-lost"
  \* one more entry closes the history of a run that started (its direction, no point)
  ELSE IF e.rows # (IF m.n = 0 THEN 0 ELSE m.n + 1) \/ ~e.same THEN "W01.saved-curve-differs"
  ELSE IF e.lines # (IF m.n = 0 THEN 0 ELSE m.n + 1 + e.head) THEN "W01.report-incomplete"
  ELSE IF e.linear /\ m.n < 1 THEN "W01.linear-response-not-found" ELSE ""
WhyShoot(e) == IF Bad(e.R) \/ MaxOf(e.R) > 50 + 30 * e.tail THEN "W01.time-domain-disagrees" ELSE ""
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "static" -> IF Bad(e.u) \/ ~StaticOk(S, e.u) THEN "W01.static-state-not-in-equilibrium" ELSE ""
            [] e.op = "pt" -> WhyPt(e)
            \* a reduced-order point of a model with one forced linear mode is an exact solution
            [] e.op = "rom" -> IF Bad(e.p.u) \/ e.p.w = BADNUM THEN "W01.reduced-response-undefined"
                               ELSE IF ~Balanced(S, e.p, e.form) THEN "W01.reduced-response-not-in-equilibrium" ELSE ""
            [] e.op = "law" -> WhyLaw(e)
            [] e.op = "end" -> WhyEnd(e)
            [] e.op = "shoot" -> WhyShoot(e)
            [] e.op = "skip" -> ""
            [] e.op = "exc" -> "W01.exception-" \o e.exc
Init == l = 1 /\ m = [n |-> 0, b |-> 1]
Step(e) == CASE e.op = "begin" -> m' = [n |-> 0, b |-> l]
             [] e.op \in {"pt", "skip"} -> m' = [m EXCEPT !.n = @ + 1]
             [] e.op = "end" -> m' = [m EXCEPT !.n = 0]
             [] OTHER -> UNCHANGED m
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ Step(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<l, m>>
=============================================================================
