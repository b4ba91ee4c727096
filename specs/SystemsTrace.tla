---------------------------- MODULE SystemsTrace ----------------------------
(* Recorded operation sequences on vibration systems (R03) and post-processed local forces *)
(* (P03) against Systems.  The variables are the state of the specified system.            *)
EXTENDS Projection, Systems
VARIABLES l, fs, ss, mat
\* mat: M, K, C (times 4), ab (times 4; <<>> if none)
Prop(ab, M, K) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> ab[1] * M[i][j] + ab[2] * K[i][j]]]
NewMat(m, e) == IF e.ab # <<>> THEN [m EXCEPT !.C = Prop(e.ab, m.M, m.K), !.ab = e.ab]
                ELSE IF e.C # <<>> THEN [m EXCEPT !.C = [i \in 1..Len(e.C) |-> SMul(4, e.C[i])], !.ab = <<>>] ELSE m
MatOk(e, m) == e.M1 = m.M /\ e.K1 = m.K /\ e.C1 = m.C /\ e.ab1 = m.ab
WhyStatic(e) ==
  LET n == Len(mat.K)
      tie == \E i \in 1..Len(fs) : FTie(fs[i], ss[i], TLCEval(SMat(fs[i].Q, e.X)))
      r == TLCEval(Static4(mat.K, fs, ss, e.X, e.F))
  IN IF e.R # r THEN "R03.static-residual"
     ELSE IF Len(e.D) # n \/ \E i \in 1..n : Len(e.D[i]) # n THEN "R03.static-derivative-shape"
     ELSE IF ~tie /\ \E i, j \in 1..n : e.D[i][j] # StaticD4(mat.K, fs, ss, e.X, i, j) THEN "R03.static-derivative"
     ELSE IF e.argchanged THEN "R03.arguments-changed" ELSE ""
\* linear part of the harmonic equations under the matrices in force (times 4)
LRow(e, L, r, d) ==
  LET k == L[r][1]
      o == IF k = 0 THEN r ELSE IF L[r][2] = "c" THEN r + 1 ELSE r - 1
      sg == IF k = 0 THEN 0 ELSE IF L[r][2] = "c" THEN 1 ELSE -1
      n == Len(mat.M)
  IN FSum(LAMBDA j : (4 * mat.K[d][j] - 4 * k * k * e.w * e.w * mat.M[d][j]) * e.U[r][j] + sg * k * e.w * mat.C[d][j] * e.U[o][j], n)
WhyLin(e) ==
  LET L == Layout(e.h)
      n == Len(mat.M)
  IN IF Len(e.R) # Len(L) \/ \E r \in 1..Len(e.R) : Len(e.R[r]) # n THEN "R03.linear-part-shape"
     ELSE IF \E r \in 1..Len(L), d \in 1..n : e.R[r][d] # LRow(e, L, r, d) THEN "R03.linear-part-not-of-the-current-matrices" ELSE ""
Cycles(e) == TLCEval([i \in 1..Len(fs) |->
     LET ul == TLCEval([t \in 1..Len(e.ug) |-> SMat(fs[i].Q, e.ug[t])])
         du == TLCEval([t \in 1..Len(e.dg) |-> SMat(fs[i].Q, e.dg[t])])
     IN FCycle(fs[i], ss[i], e.h[1] = 0, ul, du)])
Total(c, e, n, fld(_)) == [t \in 1..Len(e.ug) |-> SSum(LAMBDA i : SMat(fs[i].T, fld(c[i])[t]), Len(fs), SZero(n))]
WhyAft(e) ==
  LET L == Layout(e.h)
      n == Len(mat.M)
      c == Cycles(e)
      g == TLCEval(Total(c, e, n, LAMBDA r : r.f))
      d == TLCEval(Total(c, e, n, LAMBDA r : r.d))
  IN IF ~CoefsShape(e.Fc, L, n) THEN "R03.harmonic-shape"
     ELSE IF ~CoefsOk(e.Fc, g, L, e.sc) THEN "R03.harmonic-force"
     ELSE IF e.grad /\ ~CoefsShape(e.JV, L, n) THEN "R03.harmonic-jacobian-shape"
     ELSE IF e.grad /\ (\A i \in 1..Len(c) : ~c[i].tie) /\ ~CoefsOk(e.JV, d, L, e.scd) THEN "R03.harmonic-jacobian"
     ELSE IF e.argchanged THEN "R03.arguments-changed" ELSE ""
\* local results: e.loc[i] = [Uh, ut, Fh, ft]; Tot = harmonic force of the whole system
\* without the mean in the harmonic list, sliders that start at the mean of the motion are
\* determined up to a constant, which is not part of the harmonic equations
SamplesOk(f, s, zero, ft, law) ==
  /\ \A t \in 1..Len(law) : Len(ft[t]) = f.el.nl
  /\ \A j \in 1..f.el.nl : LET free == f.kind = "fric" /\ f.mean /\ s.u0 = <<>> /\ ~zero /\ TanOf(f.el, j) # 0 IN
        \A t \in 1..Len(law) : Near(ft[t][j] - law[t][j], IF free THEN ft[1][j] - law[1][j] ELSE 0, IF free THEN 1 ELSE 0)
                                /\ ft[t][j] # BADNUM
Velo(e, f) == [t \in 1..Len(e.vg) |-> SMul(e.w, SMat(f.Q, e.vg[t]))]
WhyLocal(e) ==
  LET L == Layout(e.h)
      n == Len(mat.M)
      nt == Len(e.ug)
      c == Cycles(e)
      One(i) ==
        LET f == fs[i]
            v == e.loc[i]
            damp == f.kind = "mem" /\ f.el.kind = "damp"
            ul == TLCEval([t \in 1..nt |-> SMat(f.Q, e.ug[t])])
            vl == TLCEval(Velo(e, f))
            law == IF damp THEN [t \in 1..nt |-> [j \in 1..f.el.nl |-> 2 * Law(f.el, ul[t], vl[t], j)]] ELSE c[i].f
        IN IF Len(v.ut) # nt \/ Len(v.ft) # nt \/ ~CoefsShape(v.Uh, L, f.el.nl) \/ ~CoefsShape(v.Fh, L, f.el.nl) THEN "P03.shape"
           ELSE IF ~damp /\ v.ut # ul THEN "P03.displacement-samples"
           ELSE IF ~damp /\ ~CoefsOk(v.Uh, ul, L, e.sc) THEN "P03.displacement-coefficients"
           ELSE IF ~SamplesOk(f, ss[i], e.h[1] = 0, v.ft, law) THEN "P03.force-samples"
           ELSE IF ~CoefsOk(v.Fh, law, L, e.sc) THEN "P03.force-coefficients" ELSE ""
      bad == {i \in 1..Len(fs) : One(i) # ""}
      \* in units of sc / 2000
      Sum(r) == SSum(LAMBDA i : SMat(fs[i].T, e.loc[i].Fh[r]), Len(fs), SZero(n))
      Tol(d) == 3 + FSum(LAMBDA i : FSum(LAMBDA j : Abs(fs[i].T[d][j]), fs[i].el.nl), Len(fs))
  IN IF Len(e.loc) # Len(fs) THEN "P03.number-of-forces"
     ELSE IF bad # {} THEN One(CHOOSE i \in bad : TRUE)
     ELSE IF ~CoefsShape(e.Tot, L, n) THEN "P03.total-shape"
     ELSE IF \E r \in 1..Len(L), d \in 1..n : ~Near(e.Tot[r][d], Sum(r)[d], Tol(d)) THEN "P03.sum-differs-from-harmonic-force"
     ELSE IF e.argchanged THEN "P03.arguments-changed" ELSE ""
\* forces without an integer law: only the agreement of the reported pieces
WhyOpaque(e) ==
  LET L == Layout(e.h)
      T == e.T
      Sum(r) == SSum(LAMBDA i : SMat(T[i], e.loc[i].Fh[r]), Len(T), SZero(Len(e.Tot[1])))
      Tol(d) == 3 + FSum(LAMBDA i : FSum(LAMBDA j : Abs(T[i][d][j]), Len(T[i][d])), Len(T))
      One(i) == LET v == e.loc[i] IN
        IF ~CoefsShape(v.Fh, L, Len(T[i][1])) THEN "P03.shape"
        ELSE IF ~CoefsOk(v.Fh, v.ft, L, 1000) THEN "P03.force-coefficients"
        ELSE IF v.ut # [t \in 1..Len(e.ug) |-> SMat(e.Q[i], e.ug[t])] THEN "P03.displacement-samples" ELSE ""
      bad == {i \in 1..Len(T) : One(i) # ""}
  IN IF Len(e.loc) # Len(T) THEN "P03.number-of-forces"
     ELSE IF bad # {} THEN One(CHOOSE i \in bad : TRUE)
     ELSE IF \E r \in 1..Len(L), d \in 1..Len(e.Tot[1]) : ~Near(e.Tot[r][d], Sum(r)[d], Tol(d)) THEN "P03.sum-differs-from-harmonic-force"
     ELSE ""
Why(e) == CASE e.op = "begin" -> IF e.opaque \/ MatOk(e, [M |-> e.M, K |-> e.K, C |-> e.C0, ab |-> e.ab0]) THEN "" ELSE "R03.damping-constructor"
            [] e.op \in {"add", "init", "commit", "pre", "real", "take", "other"} ->
                  IF e.op # "other" /\ e.argchanged THEN "R03.arguments-changed" ELSE ""
            [] e.op = "damp" -> IF ~MatOk(e, NewMat(mat, e)) THEN "R03.damping" ELSE IF e.argchanged THEN "R03.callers-matrices-changed" ELSE ""
            [] e.op = "lin" -> WhyLin(e)
            [] e.op = "frf" -> IF e.refused = (mat.ab = <<>>) THEN "" ELSE "R03.modal-damping-out-of-date"
            [] e.op = "static" -> WhyStatic(e)
            [] e.op = "aft" -> WhyAft(e)
            [] e.op = "local" -> WhyLocal(e)
            [] e.op = "opaque" -> WhyOpaque(e)
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
Init == l = 1 /\ fs = <<>> /\ ss = <<>> /\ mat = <<>>
Step(e) == CASE e.op = "begin" -> fs' = <<>> /\ ss' = <<>> /\ mat' = [M |-> e.M, K |-> e.K, C |-> e.C0, ab |-> e.ab0]
             [] e.op = "add" -> fs' = Append(fs, e.f) /\ ss' = Append(ss, FNew(e.f)) /\ UNCHANGED mat
             [] e.op = "init" -> ss' = SInit(fs, ss) /\ UNCHANGED <<fs, mat>>
             [] e.op = "commit" -> ss' = SCommit(fs, ss, e.X) /\ UNCHANGED <<fs, mat>>
             [] e.op = "pre" -> ss' = SPre(fs, ss, TRUE) /\ UNCHANGED <<fs, mat>>
             [] e.op = "real" -> ss' = SPre(fs, ss, FALSE) /\ UNCHANGED <<fs, mat>>
             [] e.op = "take" -> ss' = STake(fs, ss, e.X) /\ UNCHANGED <<fs, mat>>
             [] e.op = "damp" -> mat' = NewMat(mat, e) /\ UNCHANGED <<fs, ss>>
             [] OTHER -> UNCHANGED <<fs, ss, mat>>
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ Step(e)
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
                   /\ UNCHANGED <<fs, ss, mat>>
Spec == Init /\ [][Next]_<<l, fs, ss, mat>>
=============================================================================
