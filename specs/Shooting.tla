------------------------------ MODULE Shooting ------------------------------
(* Time-domain response over one forcing period T (an integer or rational number of time   *)
(* units, forcing frequency 2 pi / T).                                                      *)
(*                                                                                          *)
(* 1. The motion as a behaviour: successive samples at equal fractions of the period; the   *)
(*    impulse and the path accumulated by Simpson's rule over two samples must equal the    *)
(*    change of momentum and of displacement.  Displacements, velocities and forces are in  *)
(*    units of 1/U; S is a system record: n, M, C, K, forces (sequence of records kind,     *)
(*    Q, T and parameters), Fc, Fs (forcing, integers), T, nt.                              *)
(* 2. The exact flow of systems whose modes turn by whole quarter turns in one period.      *)
EXTENDS Harmonic
U == 1000
ZDot(a, b) == HSum(LAMBDA i : a[i] * b[i], Len(a))
ZMat(A, x) == [i \in 1..Len(A) |-> ZDot(A[i], x)]
ZAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
ZSub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
ZMul(c, x) == [i \in 1..Len(x) |-> c * x[i]]
\* product of two quantities in units 1/U, rounded to nearest
ZPr(a, b) == (a * b + U \div 2) \div U
\* local force (units 1/U) at local displacement x (units 1/U)
ZLaw(f, x, j) ==
  CASE f.kind = "cubic" -> f.a[j] * ZPr(ZPr(x[j], x[j]), x[j])
    [] f.kind = "quad" -> f.a[j] * ZPr(x[j], x[IF j = Len(x) THEN 1 ELSE j + 1])
    [] f.kind = "lin" -> f.a[j] * x[j]
    [] f.kind = "uni" -> ((f.a[j] * (IF 2 * x[j] > U * f.d2[j] THEN 2 * x[j] - U * f.d2[j] ELSE 0)) \div 2) - U * f.N[j]
ZForce(f, u) == LET x == ZMat(f.Q, u) IN ZMat(f.T, [j \in 1..Len(x) |-> ZLaw(f, x, j)])
RECURSIVE ZForces(_, _, _)
ZForces(fs, u, acc) == IF fs = <<>> THEN acc ELSE ZForces(Tail(fs), u, ZAdd(acc, ZForce(Head(fs), u)))
\* external force at sample i (0..nt)
ZExt(S, i) == [d \in 1..S.n |-> (S.Fc[d] * CosT(i, S.nt) + S.Fs[d] * SinT(i, S.nt)) \div (1000000 \div U)]
\* what accelerates the masses
Rhs(S, i, u, v) == ZSub(ZExt(S, i), ZForces(S.forces, u, ZAdd(ZMat(S.C, v), ZMat(S.K, u))))
\* accumulators after the samples i - 1 and i (i even): path and impulse, times 3 nt / T
Acc(w, x0, x1, x2) == ZAdd(w, ZAdd(x0, ZAdd(ZMul(4, x1), x2)))
Close(a, b, tol) == \A i \in 1..Len(a) : HAbs(a[i] - b[i]) <= tol
PathOk(S, u0, u, w, tol) == Close(ZMul(3 * S.nt, ZSub(u, u0)), ZMul(S.T, w), 3 * S.nt * tol)
ImpulseOk(S, v0, v, w, tol) == Close(ZMul(3 * S.nt, ZMat(S.M, ZSub(v, v0))), ZMul(S.T, w), 3 * S.nt * tol)

\* ---------------------------------------------------------------- exact flow
\* One mode turning p quarters of a turn in the period, in the plane (q, velocity / natural frequency)
Quarter(p, x) == LET k == p % 4 IN
  CASE k = 0 -> x [] k = 1 -> <<x[2], -x[1]>> [] k = 2 -> <<-x[1], -x[2]>> [] k = 3 -> <<-x[2], x[1]>>
\* residual of the mode: forced response xp (at the start of the period) is periodic
ModeRes(p, x, xp) == LET d == ZSub(x, xp) IN ZSub(Quarter(p, d), d)
=============================================================================
