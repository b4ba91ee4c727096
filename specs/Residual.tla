------------------------------ MODULE Residual ------------------------------
(* Residuals of the harmonic balance family for systems of integer matrices whose        *)
(* nonlinear forces obey integer quadratic laws.  Unknown vectors x list everything the   *)
(* residual depends on, the continuation parameter last.  Derivatives are differences of  *)
(* the residual itself (exact for polynomials of degree 2, five points up to degree 4).   *)
(*   S    : [n, M, C, K, forces];  force: lin, quad triples <<i, j, v>>, vectors b, and    *)
(*          integers cn, ct, ch: component i of the force is                              *)
(*          sum v U_j + sum v U_j^2 + (w + cn Nt + ct tol + ch sum(h)) b_i                 *)
EXTENDS Harmonic, TLC
RECURSIVE TSum(_, _, _, _)
TSum(ts, i, U, sq) == IF ts = <<>> THEN 0
   ELSE (IF Head(ts)[1] = i THEN Head(ts)[3] * (IF sq THEN U[Head(ts)[2]] * U[Head(ts)[2]] ELSE U[Head(ts)[2]]) ELSE 0)
        + TSum(Tail(ts), i, U, sq)
\* total nonlinear force, q = <<Nt, tol digits>>
Law(S, h, U, w, q) ==
  LET sh == HSum(LAMBDA i : h[i], Len(h))
      c == [f \in 1..Len(S.forces) |-> w + S.forces[f].cn * q[1] + S.forces[f].ct * q[2] + S.forces[f].ch * sh]
  IN [i \in 1..Len(U) |-> HSum(LAMBDA f : TSum(S.forces[f].lin, i, U, FALSE) + TSum(S.forces[f].quad, i, U, TRUE)
                                           + c[f] * S.forces[f].b[i], Len(S.forces))]
RDot(a, b, off, n) == HSum(LAMBDA j : a[j] * b[off + j], n)
\* dynamic stiffness times coefficients; xi is a mass proportional (negative) damping
DynRow(S, L, U, w, xi, r, i) ==
  LET n == S.n  k == L[r][1]  o == (r - 1) * n
      p == IF k = 0 THEN o ELSE IF L[r][2] = "c" THEN o + n ELSE o - n
      m == S.M[i]  c == S.C[i]
      damp == IF k = 0 THEN 0 ELSE k * w * HSum(LAMBDA j : (c[j] - xi * m[j]) * U[p + j], n)
  IN RDot(S.K[i], U, o, n) - (IF k = 0 THEN 0 ELSE k * k * w * w * RDot(m, U, o, n))
     + (IF L[r][2] = "c" THEN damp ELSE -damp)
RowOf(x, n) == ((x - 1) \div n) + 1
DofOf(x, n) == ((x - 1) % n) + 1
Dyn(S, L, U, w, xi) == [x \in 1..(S.n * Len(L)) |-> DynRow(S, L, U, w, xi, RowOf(x, S.n), DofOf(x, S.n))]
Cut(x, n) == SubSeq(x, 1, n)
Hbm(S, h, U, w, F, q) ==
  LET L == TLCEval(Layout(h))
      d == TLCEval(Dyn(S, L, U, w, 0))
      f == TLCEval(Law(S, h, U, w, q))
  IN [i \in 1..Len(U) |-> d[i] + f[i] - F[i]]
Mean(S, h) == IF h[1] = 0 THEN S.n ELSE 0      \* number of static rows
Scaled(S, h, F, s) == [i \in 1..Len(F) |-> IF i <= Mean(S, h) THEN F[i] ELSE s * F[i]]
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
\* recovered cosine / sine amplitude of the first harmonic
Rec(S, h, v, U, part) == RDot(v, U, Mean(S, h) + (IF part = "c" THEN 0 ELSE S.n), S.n)
CosSin(S, h, F, fc, fs) == LET z == Mean(S, h)  n == S.n IN
  [i \in 1..Len(F) |-> IF i <= z THEN F[i] ELSE IF i <= z + n THEN fc * F[i]
                       ELSE IF i <= z + 2 * n THEN fs * F[i - n] ELSE 0]
\* full vector from the free and the prescribed coordinates
RECURSIVE Rank(_, _)
Rank(mask, i) == IF i = 0 THEN 0 ELSE Rank(mask, i - 1) + (IF mask[i] THEN 1 ELSE 0)
Merge(free, base, mask) == [i \in 1..Len(mask) |-> IF mask[i] THEN base[Rank(mask, i)] ELSE free[i - Rank(mask, i)]]
Mask(S, L, flag) == [x \in 1..(S.n * Len(L)) |-> flag[DofOf(x, S.n)]]
Pick(q, keep) == LET RECURSIVE Go(_)
                     Go(i) == IF i > Len(q) THEN <<>> ELSE (IF keep[i] THEN <<q[i]>> ELSE <<>>) \o Go(i + 1)
                 IN Go(1)

\* polynomial part of the residuals
Res(kind, S, h, p, x) ==
  LET n == Len(x)
      L == TLCEval(Layout(h))
      NU == S.n * Len(L)
      U == Cut(x, NU)
  IN CASE kind = "hbm" -> Hbm(S, h, U, x[n], p.Fl, p.q)
       [] kind = "dFl" -> Hbm(S, h, U, p.w, Scaled(S, h, p.Fl, x[n]), p.q)
       [] kind = "static" -> LET f == TLCEval(Law(S, <<0>>, x, 0, <<0, 0>>))
                             IN [i \in 1..S.n |-> RDot(S.K[i], x, 0, S.n) + f[i] - p.Fl[i]]
       [] kind = "base" -> LET mask == TLCEval(Mask(S, L, p.flag))
                               U1 == TLCEval(Merge(Cut(x, n - 1), p.Ub, mask))
                           IN Pick(TLCEval(Hbm(S, h, U1, x[n], [i \in 1..NU |-> 0], p.q)), [i \in 1..NU |-> ~mask[i]])
       [] kind = "amp" -> LET uc == Rec(S, h, p.recov, U, "c")  us == Rec(S, h, p.recov, U, "s") IN
            Hbm(S, h, U, x[n], Scaled(S, h, p.Fl, x[n - 1]), p.q)
            \o << Pow(x[n], 2 * p.order) * (uc * uc + us * us) - p.amp * p.amp >>
       [] kind \in {"ampphase", "dA", "vap"} ->
            LET w == CASE kind = "ampphase" -> x[n] [] kind = "dA" -> p.w [] kind = "vap" -> x[n - 1]
                amp == IF kind = "ampphase" THEN p.amp ELSE x[n]
            IN Hbm(S, h, U, w, CosSin(S, h, p.Fl, x[NU + 1], x[NU + 2]), p.q)
               \o << Pow(w, p.order) * Rec(S, h, p.recov, U, "c") - amp, Pow(w, p.order) * Rec(S, h, p.recov, U, "s") >>
       [] kind = "epmc" ->
            LET z == Mean(S, h)
                V == TLCEval([i \in 1..NU |-> IF i <= z THEN U[i] ELSE x[n] * U[i]])
                d == TLCEval(Dyn(S, L, V, x[NU + 1], x[NU + 2]))
                f == TLCEval(Law(S, h, V, x[NU + 1], p.q))
                quad(o) == HSum(LAMBDA i : U[o + i] * RDot(S.M[i], U, o, S.n), S.n)
            IN [i \in 1..NU |-> d[i] + f[i] - (IF i <= z THEN p.Fl[i] ELSE 0)]
               \o << quad(z) + quad(z + S.n) - 1,
                     HSum(LAMBDA i : IF i <= z THEN 0 ELSE p.Fl[i] * U[i], NU) >>
       [] kind = "vprnm" -> Hbm(S, h, U, x[n - 1], Scaled(S, h, p.Fl, x[n]), p.q)

Bump(x, k, s) == [x EXCEPT ![k] = @ + s]
\* column k of the derivative of the polynomial part
Col(kind, S, h, p, x, k) ==
  LET P(s) == TLCEval(Res(kind, S, h, p, Bump(x, k, s)))
      f == IF kind = "epmc" /\ k = Len(x) THEN x[k] ELSE 1    \* with respect to the logarithm
      a == P(1)  b == P(-1)
  IN IF kind = "amp" /\ k = Len(x)
     THEN LET a2 == P(2)  b2 == P(-2) IN [i \in 1..Len(a) |-> (b2[i] - a2[i] + 8 * (a[i] - b[i])) \div 12]
     ELSE [i \in 1..Len(a) |-> f * ((a[i] - b[i]) \div 2)]

\* ---------------------------------------------------- superharmonic phase condition
\* force and response at the resonance harmonic, each <<cosine part, sine part>> stacked
RECURSIVE Below(_, _)
Below(h, rhi) == IF h = <<>> THEN 0 ELSE (IF Head(h) < rhi THEN Comps(Head(h)) ELSE 0) + Below(Tail(h), rhi)
Cond(S, h, p, U, w) ==
  LET o == S.n * Below(h, p.rhi)
      U0 == TLCEval([i \in 1..Len(U) |-> IF i <= o THEN U[i] ELSE 0])
      f == TLCEval(Law(S, h, U0, w, p.q))
      m == Len(p.filter)
      fm == TLCEval([a \in 1..m |-> [j \in 1..S.n |-> HSum(LAMBDA i : p.filter[a][i] * S.M[i][j], S.n)]])
  IN IF m = 0 THEN [F |-> [i \in 1..(2 * S.n) |-> -f[o + i]], X |-> [i \in 1..(2 * S.n) |-> U[o + i]]]
     ELSE [F |-> [i \in 1..(2 * m) |-> -RDot(p.filter[DofOf(i, m)], f, o + (RowOf(i, m) - 1) * S.n, S.n)],
           X |-> [i \in 1..(2 * m) |-> RDot(fm[DofOf(i, m)], U, o + (RowOf(i, m) - 1) * S.n, S.n)]]
VDot(a, b) == HSum(LAMBDA i : a[i] * b[i], Len(a))
\* derivative of F.X / (|F| |X|), times |F|^3 |X|^3
CondD(c, a, b) ==   \* c at x, a at x + e_k, b at x - e_k
  LET dF == [i \in 1..Len(c.F) |-> (a.F[i] - b.F[i]) \div 2]
      dX == [i \in 1..Len(c.X) |-> (a.X[i] - b.X[i]) \div 2]
      nf == VDot(c.F, c.F)  nx == VDot(c.X, c.X)  d == VDot(c.F, c.X)
  IN (VDot(dF, c.X) + VDot(c.F, dX)) * nf * nx - d * (VDot(c.F, dF) * nx + VDot(c.X, dX) * nf)
=============================================================================
