---------------------------- MODULE ResidualTrace ----------------------------
(* Recorded residual evaluations against Residual (R01, R02).  An event holds the point   *)
(* x, the residual R, the derivative columns D (one per entry of x), Rn the residual when  *)
(* no derivatives are asked (empty when not asked).  For the phase condition c holds the   *)
(* value times |F||X| and cd its derivatives times |F|^3 |X|^3.                           *)
EXTENDS TraceLib, Residual
VARIABLE l
Focus == IOEnv.FOCUS
Name(e, c) == Focus \o "." \o e.kind \o "-" \o c
NCol(e) == IF e.kind = "static" THEN e.S.n ELSE Len(e.x)
WhyCond(e) ==
  LET n == Len(e.x)
      NU == e.S.n * NhcOf(e.h)
      wi == IF e.kind = "vap" THEN n - 1 ELSE IF e.kind = "vprnm" THEN n - 1 ELSE n
      At(x) == TLCEval(Cond(e.S, e.h, e.p, Cut(x, NU), x[wi]))
      c == At(e.x)
      Exp(k) == IF k <= NU \/ k = wi THEN e.p.scale * CondD(c, At(Bump(e.x, k, 1)), At(Bump(e.x, k, -1))) ELSE 0
  IN IF VDot(c.F, c.F) # e.nf2 \/ VDot(c.X, c.X) # e.nx2 THEN Name(e, "machinery")
     ELSE IF e.c # e.p.scale * VDot(c.F, c.X) THEN Name(e, "phase-condition")
     ELSE IF e.cn # e.c THEN Name(e, "phase-condition-without-derivatives")
     ELSE IF Len(e.cd) # n THEN Name(e, "phase-condition-derivative-shape")
     ELSE IF \E k \in 1..n : e.cd[k] # Exp(k) THEN Name(e, "phase-condition-derivative")
     ELSE ""
WhyPoly(e) ==
  LET r == TLCEval(Res(e.kind, e.S, e.h, e.p, e.x)) IN
  IF Len(e.R) # Len(r) THEN Name(e, "shape")
  ELSE IF \E i \in 1..Len(r) : e.R[i] # r[i]
       THEN Name(e, IF \E i \in 1..(e.S.n * NhcOf(e.h)) : i <= Len(r) /\ e.R[i] # r[i] THEN "residual" ELSE "condition")
  ELSE IF e.asked /\ e.Rn # e.R THEN Name(e, "residual-without-derivatives")
  ELSE IF Len(e.D) # NCol(e) \/ \E k \in 1..Len(e.D) : Len(e.D[k]) # Len(r) THEN Name(e, "derivative-shape")
  ELSE IF \E k \in 1..NCol(e) : e.D[k] # Col(e.kind, e.S, e.h, e.p, e.x, k)
       THEN Name(e, IF \E k \in 1..(NCol(e) - 1) : e.D[k] # Col(e.kind, e.S, e.h, e.p, e.x, k)
                    THEN "derivative" ELSE "parameter-derivative")
  ELSE IF e.kind \in {"vprnm", "vap"} THEN WhyCond(e) ELSE ""
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "res" -> IF e.argchanged THEN Name(e, "arguments-changed") ELSE WhyPoly(e)
            [] e.op = "cond" -> IF e.argchanged THEN Name(e, "arguments-changed") ELSE WhyCond(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1
              ELSE PrintT(<<"REJECT", e.case, l, why>>) /\ l' = NextBegin(l + 1)
Spec == Init /\ [][Next]_l
=============================================================================
