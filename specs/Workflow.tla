------------------------------ MODULE Workflow ------------------------------
(* The analysis workflow as a whole: a model is assembled, its static equilibrium is       *)
(* found with frictionless contacts, real friction is restored, a response curve is         *)
(* followed and every reported point is post-processed into local forces.                   *)
(* Numbers are fixed point: displacements and forces in 1/100000, frequencies and their      *)
(* squares in 1/10000, damping in 1/100, loads in 1/10.                                      *)
EXTENDS TraceLib
WS == 10000
\* a * b / WS without leaving 32 bits (the result must fit)
MulS(a, b) ==
  LET ah == a \div WS  al == a % WS  bh == b \div WS  bl == b % WS
  IN ah * bh * WS + ah * bl + al * bh + (al * bl) \div WS

RECURSIVE DotAbs(_, _)
DotAbs(a, b) == IF a = <<>> THEN 0 ELSE Abs(Head(a)) * Abs(Head(b)) + DotAbs(Tail(a), Tail(b))
RECURSIVE RowAbs(_)
RowAbs(a) == IF a = <<>> THEN 0 ELSE Abs(Head(a)) + RowAbs(Tail(a))
RECURSIVE MaxOf(_)
MaxOf(v) == IF v = <<>> THEN 0 ELSE Max2(Abs(Head(v)), MaxOf(Tail(v)))

\* rows of the layout: 0 = static, then cosine and sine of every harmonic
RECURSIVE WRows(_)
WRows(h) == IF h = <<>> THEN <<>>
            ELSE (IF Head(h) = 0 THEN << <<0, "c">> >> ELSE << <<Head(h), "c">>, <<Head(h), "s">> >>) \o WRows(Tail(h))
Blk(u, r, n) == SubSeq(u, (r - 1) * n + 1, r * n)
Other(L, r) == IF L[r][2] = "c" THEN r + 1 ELSE r - 1

\* ---------------------------------------------------------------- linear part of the balance
\* S = [n, M, C, K], p = [u, w, w2, xi]  (xi: negative proportional damping of mode computations)
LinearPart(S, L, p, r, d) ==
  LET n == S.n
      k == L[r][1]
      U == Blk(p.u, r, n)
  IN IF k = 0 THEN Dot(S.K[d], U)
     ELSE LET V == Blk(p.u, Other(L, r), n)
              s == IF L[r][2] = "c" THEN 1 ELSE -1
              kw == k * p.w
          IN Dot(S.K[d], U) - MulS(k * k * p.w2, Dot(S.M[d], U))
             + s * ((MulS(kw, Dot(S.C[d], V)) \div 100) - (MulS(kw, MulS(p.xi, Dot(S.M[d], V))) \div 10))
LinTol(S, L, p, r, d) ==
  LET n == S.n
      k == L[r][1]
      U == Blk(p.u, r, n)
      V == IF k = 0 THEN U ELSE Blk(p.u, Other(L, r), n)
      mu == DotAbs(S.M[d], U) + DotAbs(S.M[d], V)
      cu == DotAbs(S.C[d], V) \div 100
  IN RowAbs(S.K[d]) + (MulS(k * k * p.w2, WS * RowAbs(S.M[d])) \div WS)
     + (k * k * mu) \div WS + (k * cu) \div WS + (k * p.w * (RowAbs(S.C[d]) \div 100 + RowAbs(S.M[d]))) \div WS
     + (((k * p.w) \div 100) * (mu \div 1000)) \div WS + 10

\* local forces through the output maps
NLPart(S, p, r, d) ==
  LET f(i) == Dot(S.forces[i].T[d], p.fh[i][r]) IN SumTo(f, Len(S.forces))
\* external force: F in tenths, the dynamic part scaled by the unknown x (1/100000) where it is one
Load(S, L, p, r, d, form) ==
  LET b == S.F[(r - 1) * S.n + d]
      first == CHOOSE j \in 1..Len(L) : L[j] = <<1, "c">>
  IN IF L[r][1] = 0 \/ form \in {"frc", "base"} THEN b * 10000
     ELSE IF form = "epmc" THEN 0
     ELSE IF form \in {"dFl", "amp", "vprnm3"} THEN (b * p.x[1]) \div 10
     ELSE IF L[r][1] = 1 THEN (S.F[(first - 1) * S.n + d] * p.x[IF L[r][2] = "c" THEN 1 ELSE 2]) \div 10
     ELSE 0
LoadTol(S) == 10 + MaxOf(S.F) \div 10

Residual(S, L, p, r, d, form) == LinearPart(S, L, p, r, d) + NLPart(S, p, r, d) - Load(S, L, p, r, d, form)
RowTol(S, L, p, r, d) == 60 + LinTol(S, L, p, r, d) + LoadTol(S)
                         + SumTo(LAMBDA i : RowAbs(S.forces[i].T[d]), Len(S.forces))
\* rows that are equations (base motion rows are prescribed instead)
Balanced(S, p, form) ==
  LET L == WRows(S.h) IN
  \A r \in 1..Len(L), d \in 1..S.n : S.base[d] \/ Abs(Residual(S, L, p, r, d, form)) <= RowTol(S, L, p, r, d)

\* ---------------------------------------------------------------- conditions of the formulations
H1(S) == LET L == WRows(S.h) IN CHOOSE j \in 1..Len(L) : L[j] = <<1, "c">>
Quad(S, v) == LET f(d) == MulS(v[d] \div 10, Dot(S.M[d], v) \div 10) IN SumTo(f, S.n)   \* 1/10000 (v in 1/100000)
Pow(w, k, v) == IF k = 0 THEN v ELSE MulS(w, IF k = 1 THEN v ELSE MulS(w, v))
Recov(S, v) == Dot(S.recov, v)
CondTol(S, p) == 40 + (RowAbs(S.recov) + 1) * (1 + (p.w \div WS)) * (1 + (p.w \div WS)) * 2 + MaxOf(p.u) \div 1000
Holds(S, p, form) ==
  LET r == H1(S)
      uc == Blk(p.u, r, S.n)
      us == Blk(p.u, r + 1, S.n)
      rc == Pow(p.w, S.order, Recov(S, uc)) \div 10      \* 1/10000
      rs == Pow(p.w, S.order, Recov(S, us)) \div 10
      L == WRows(S.h)
  IN CASE form = "amp" -> Abs(MulS(rc, rc) + MulS(rs, rs) - MulS(p.amp, p.amp)) <= 40 + (p.amp \div 1000) + CondTol(S, p)
       [] form \in {"ampph", "vphase3"} -> Abs(rc - p.amp) <= CondTol(S, p) /\ Abs(rs) <= CondTol(S, p)
       [] form = "epmc" -> /\ Abs(Quad(S, Blk(p.phi, r, S.n)) + Quad(S, Blk(p.phi, r + 1, S.n)) - WS) <= 30
                           /\ Abs(Dot([i \in 1..Len(p.phi) |-> IF i <= S.n * (r - 1) THEN 0 ELSE S.F[i]], p.phi)) <= 100 + RowAbs(S.F)
       [] form = "base" -> \A j \in 1..Len(L), d \in 1..S.n : S.base[d] => Abs(Blk(p.u, j, S.n)[d] - 10000 * Blk(S.ub, j, S.n)[d]) <= 2
       [] OTHER -> TRUE

\* superharmonic resonance of harmonic k: the internal force that the motion below harmonic k
\* exerts on harmonic k is in quadrature to the response there (relative to its size)
HRow(S, k) == LET L == WRows(S.h) IN CHOOSE j \in 1..Len(L) : L[j] = <<k, "c">>
Quadrature(S, p, low, k) ==
  LET r == HRow(S, k)
      f(j, d) == SumTo(LAMBDA i : Dot(S.forces[i].T[d], low[i][j]), Len(S.forces)) \div 10
      x(j, d) == Blk(p.u, j, S.n)[d] \div 10
      dot(j) == SumTo(LAMBDA d : MulS(f(j, d), x(j, d)), S.n)
      big(j) == SumTo(LAMBDA d : Abs(MulS(f(j, d), x(j, d))), S.n)
      fm == SumTo(LAMBDA d : Abs(f(r, d)) + Abs(f(r + 1, d)), S.n)
      xm == SumTo(LAMBDA d : Abs(x(r, d)) + Abs(x(r + 1, d)), S.n)
  IN Abs(dot(r) + dot(r + 1)) <= 2 + (fm + xm) \div WS + MulS(fm, xm) \div 100

\* ---------------------------------------------------------------- laws of the local histories
\* u, f: series of one local coordinate (1/100000); law constants are integers
Slope(k, f0, u0, u1) == f0 + k * (u1 - u0)
Clip(x, b) == IF x > b THEN b ELSE IF x < -b THEN -b ELSE x
SliderLaw(u, f, kt, lim) ==
  LET n == Len(u)
      prev(i) == IF i = 1 THEN n ELSE i - 1 IN
  /\ \A i \in 1..n : Abs(f[i]) <= lim + 2
  /\ \A i \in 1..n : Abs(f[i] - Clip(Slope(kt, f[prev(i)], u[prev(i)], u[i]), lim)) <= 4 + 2 * kt
CubicLaw(u, f, k) == \A i \in 1..Len(u) :
  LET v == u[i] \div 10                               \* 1/10000
      a == MulS(v, v)                                  \* 1/10000
  IN Abs(f[i] - k * MulS(a, u[i])) <= 20 + k * ((a \div 2000) * 10 + Abs(u[i]) \div 4000 + 3)
NormalLaw(u, f, k) == \A i \in 1..Len(u) : Abs(f[i] - (IF u[i] > 0 THEN k * u[i] ELSE 0)) <= 4 + k
\* tangential force of a contact: never beyond mu times the normal force, none when separated
ConeLaw(fn, ft, mn, md) == \A i \in 1..Len(fn) : md * Abs(ft[i]) <= mn * fn[i] + 4 * (mn + md)

\* ---------------------------------------------------------------- static equilibrium
\* frictionless contacts: only the normal local force of a dry contact acts
StaticLocal(f, u) == IF f.kind = "E2" THEN LET un == Dot(f.Q[2], u) IN <<0, IF un > 0 THEN f.kn * un ELSE 0>>
                     ELSE LET x == Dot(f.Q[1], u) IN <<f.k * MulS(MulS(x \div 10, x \div 10), x)>>
StaticTol(S, u, d) == 60 + RowAbs(S.K[d]) + SumTo(LAMBDA i : RowAbs(S.forces[i].T[d]) * (20 + (MaxOf(u) \div 1000) + 5 * S.forces[i].k + S.forces[i].kn), Len(S.forces))
StaticOk(S, u) ==
  \A d \in 1..S.n :
    Abs(Dot(S.K[d], u) + SumTo(LAMBDA i : Dot(S.forces[i].T[d], StaticLocal(S.forces[i], u)), Len(S.forces)) - 10000 * S.Fs[d])
      <= StaticTol(S, u, d)
=============================================================================
