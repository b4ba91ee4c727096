------------------------------ MODULE Systems ------------------------------
(* A vibration system: matrices, damping, and a list of nonlinear forces with their        *)
(* internal state.  A force f is a record                                                  *)
(*   kind   "fric" (spring-slider element, Friction), "mem" (memoryless, Memoryless) or      *)
(*          "lin" (an element with linear law and the most general internal state)          *)
(*   el, Q, T   element, input and output transformations                                   *)
(*   hist   takes part in history operations (type 1)                                       *)
(*   pres   supports the frictionless mode;  takes  takes starting positions                *)
(*   mean   without given starting position, the harmonic evaluation starts at the mean     *)
(* State of one force: st (committed history), pre (frictionless), u0 (starting position,   *)
(* <<>> if none was given).                                                                 *)
(* Law of a "lin" force: gain * u + s, gain k or, frictionless, kp;  s accumulates the      *)
(* committed displacements;  harmonic evaluations add u0.                                   *)
EXTENDS Friction, Memoryless
SMat(A, x) == [i \in 1..Len(A) |-> FSum(LAMBDA k : A[i][k] * x[k], Len(x))]
SAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
SMul(c, x) == [i \in 1..Len(x) |-> c * x[i]]
SZero(n) == [i \in 1..n |-> 0]

\* ------------------------------------------------------------------ one force
Fresh(f) == CASE f.kind = "fric" -> Zero(f.el) [] f.kind = "lin" -> SZero(f.el.nl) [] OTHER -> <<>>
FNew(f) == [st |-> Fresh(f), pre |-> FALSE, u0 |-> f.u0]
FInit(f, s) == IF f.hist THEN [s EXCEPT !.st = Fresh(f)] ELSE s
FCommit(f, s, X) == IF ~f.hist THEN s
   ELSE LET u == TLCEval(SMat(f.Q, X)) IN
        [s EXCEPT !.st = TLCEval(IF f.kind = "fric" THEN Advance(f.el, s.st, u, s.pre) ELSE SAdd(s.st, u))]
FPre(f, s, b) == IF f.pres THEN [s EXCEPT !.pre = b] ELSE s
FTake(f, s, X) == IF f.takes THEN [s EXCEPT !.u0 = TLCEval(SMat(f.Q, X))] ELSE s
Gain(f, s) == IF s.pre THEN f.el.kp ELSE f.el.k
\* local force, times 4
FLoc4(f, s, u) == LET ns == IF f.kind = "fric" THEN TLCEval(NewS(f.el, s.st, u, s.pre)) ELSE <<>> IN
   [j \in 1..f.el.nl |->
      CASE f.kind = "fric" -> 4 * LForce(f.el, ns, u, j)
        [] f.kind = "mem" -> (IF f.el.kind = "uni" THEN 2 ELSE 4) * Law(f.el, u, SZero(f.el.nl), j)
        [] OTHER -> 4 * (Gain(f, s) * u[j] + s.st[j])]
\* derivative of local force j in direction k, times 4
FDer4(f, s, u, j, k) ==
   CASE f.kind = "fric" -> DLoc(f.el, s.st, u, s.pre, j, k, [a \in 1..Len(f.el.tan) |-> TRUE])
     [] f.kind = "mem" -> (IF f.el.kind = "uni" THEN 2 ELSE 4) * DU(f.el, u, SZero(f.el.nl), j, k)
     [] OTHER -> IF j = k THEN 4 * Gain(f, s) ELSE 0
\* points without a unique derivative: a slider exactly at its limit, a contact exactly closing
Touch(f, u) == f.kind = "fric" /\ \E j \in 1..Len(f.el.nrm) : 2 * u[f.el.nrm[j]] = f.el.gap2
FTie(f, s, u) == \/ Touch(f, u)
                 \/ f.kind = "fric" /\ \E a \in 1..Len(f.el.tan), i \in 1..Len(f.el.sl) :
                                          Status(f.el, s.st, a, i, u, s.pre) = "tie"
\* steady cycle of local forces (times 2) and directional derivatives (times 4)
EffEl(f, s) == IF ~s.pre THEN f.el
               ELSE [f.el EXCEPT !.m = 0, !.sl = [i \in 1..Len(f.el.sl) |-> [f.el.sl[i] EXCEPT !.lim = 0]]]
MeanRow(rows) == [j \in 1..Len(rows[1]) |-> FSum(LAMBDA t : rows[t][j], Len(rows)) \div Len(rows)]
TanRow(el, row) == [a \in 1..Len(el.tan) |-> row[el.tan[a].j]]
FCycle(f, s, zero, ul, du) ==
  IF f.kind = "fric"
  THEN LET el == EffEl(f, s)
           nt == Len(el.tan)
           atmean == f.mean /\ s.u0 = <<>> /\ zero
           r == Steady(el, ul, du,
                       IF atmean THEN TanRow(el, MeanRow(ul)) ELSE IF s.u0 = <<>> THEN SZero(nt) ELSE TanRow(el, s.u0),
                       IF atmean THEN TanRow(el, MeanRow(du)) ELSE SZero(nt))
       IN [f |-> [t \in 1..Len(ul) |-> SMul(2, r.f[t])], d |-> r.d,
           tie |-> r.tie \/ \E t \in 1..Len(ul) : Touch(f, ul[t])]
  ELSE LET z == SZero(f.el.nl) IN
       [tie |-> FALSE,
        f |-> [t \in 1..Len(ul) |-> [j \in 1..f.el.nl |->
                 IF f.kind = "mem" THEN (IF f.el.kind = "uni" THEN 1 ELSE 2) * Law(f.el, ul[t], z, j)
                 ELSE 2 * (Gain(f, s) * ul[t][j] + (IF s.u0 = <<>> THEN 0 ELSE s.u0[j]))]],
        d |-> [t \in 1..Len(ul) |-> [j \in 1..f.el.nl |->
                 IF f.kind = "mem" THEN FSum(LAMBDA k : (IF f.el.kind = "uni" THEN 2 ELSE 4) * DU(f.el, ul[t], z, j, k) * du[t][k], f.el.nl)
                 ELSE 4 * Gain(f, s) * du[t][j]]]]

\* ----------------------------------------------------------------- the system
\* fs: sequence of forces, ss: their states
SInit(fs, ss) == [i \in 1..Len(fs) |-> FInit(fs[i], ss[i])]
SCommit(fs, ss, X) == [i \in 1..Len(fs) |-> FCommit(fs[i], ss[i], X)]
SPre(fs, ss, b) == [i \in 1..Len(fs) |-> FPre(fs[i], ss[i], b)]
STake(fs, ss, X) == [i \in 1..Len(fs) |-> FTake(fs[i], ss[i], X)]
RECURSIVE SSum(_, _, _)
SSum(f(_), n, zero) == IF n = 0 THEN zero ELSE SAdd(f(n), SSum(f, n - 1, zero))
Static4(K, fs, ss, X, F) ==
  LET lin == SAdd(SMul(4, SMat(K, X)), SMul(-4, F)) IN
  SSum(LAMBDA i : SMat(fs[i].T, TLCEval(FLoc4(fs[i], ss[i], TLCEval(SMat(fs[i].Q, X))))), Len(fs), lin)
StaticD4(K, fs, ss, X, r, c) ==
  4 * K[r][c] + FSum(LAMBDA i : LET f == fs[i]  u == TLCEval(SMat(f.Q, X)) IN
      FSum(LAMBDA j : FSum(LAMBDA k : f.T[r][j] * FDer4(f, ss[i], u, j, k) * f.Q[k][c], f.el.nl), f.el.nl), Len(fs))
=============================================================================
