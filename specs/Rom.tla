-------------------------------- MODULE Rom --------------------------------
(* Response curves built from nonlinear-mode backbones.                                     *)
(* A backbone is a sequence of records [phi, w, x, q]: phi the harmonic coefficients        *)
(* (integers, static part first if present), w the frequency, x / 10 the mass-proportional  *)
(* damping (so 2 zeta w = x / 10), q the modal amplitude; w, x, q integers.                 *)
(* Observed quantities are in units 1/RU, unit vectors (cos, sin) in units 1/WU.            *)
EXTENDS Integers, Sequences
RU == 1000
WU == 10000
RoAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RoDot(_, _)
RoDot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + RoDot(Tail(a), Tail(b))
FMul(a, b) == (a * b + RU \div 2) \div RU
RECURSIVE RoBis(_, _, _)
RoBis(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RoBis(n, m, hi) ELSE RoBis(n, lo, m)
ISqrt(n) == RoBis(n, 0, 46340)
\* number of coefficient vectors before harmonic g
RECURSIVE Bef(_, _)
Bef(h, g) == IF h = <<>> \/ Head(h) >= g THEN 0 ELSE (IF Head(h) = 0 THEN 1 ELSE 2) + Bef(Tail(h), g)
RECURSIVE NumHc(_)
NumHc(h) == IF h = <<>> THEN 0 ELSE (IF Head(h) = 0 THEN 1 ELSE 2) + NumHc(Tail(h))
CosPart(u, h, g, n) == SubSeq(u, Bef(h, g) * n + 1, (Bef(h, g) + 1) * n)
SinPart(u, h, g, n) == SubSeq(u, (Bef(h, g) + 1) * n + 1, (Bef(h, g) + 2) * n)
\* advance a pair of coefficient vectors by k times the angle of the unit vector (cs, sn)
RECURSIVE Turn(_, _, _, _, _)
Turn(c, s, cs, sn, k) == IF k = 0 THEN <<c, s>>
   ELSE Turn([i \in 1..Len(c) |-> (c[i] * cs - s[i] * sn) \div WU], [i \in 1..Len(c) |-> (c[i] * sn + s[i] * cs) \div WU], cs, sn, k - 1)
NearVec(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RoAbs(a[i] - b[i]) <= tol
IsUnit(cs, sn) == RoAbs((cs * cs + sn * sn) - WU * WU) <= 30000
\* the observed coefficients u (harmonic list h) of harmonic g are `scale' (units 1/RU) times phi turned g times
Turned(u, hu, phi, h, g, n, cs, sn, sc(_), tol) ==
  LET t == Turn([i \in 1..n |-> sc(CosPart(phi, h, g, n)[i])], [i \in 1..n |-> sc(SinPart(phi, h, g, n)[i])], cs, sn, g)
  IN NearVec(CosPart(u, hu, g, n), t[1], tol) /\ NearVec(SinPart(u, hu, g, n), t[2], tol)
\* ------------------------------------------------ the response equation of one mode
\* modal force z^H F for phi = phi_c - i phi_s, F = F_c - i F_s
ModalRe(pc, ps, fc, fs) == RoDot(pc, fc) + RoDot(ps, fs)
ModalIm(pc, ps, fc, fs) == RoDot(ps, fc) - RoDot(pc, fs)
\* stiffness-minus-inertia and damping terms at frequency om (units 1/RU); wsq, in units 1/RU, xx = 2 zeta w (units 1/RU)
Dre(wsq, om) == wsq - FMul(om, om)
Dim(xx, om) == FMul(xx, om)
\* (dre + i dim) q e^{-i theta} = fr + i fi, with all values in units 1/RU, q an integer or in units 1/RU (qmul)
BalRe(dre, dim, cs, sn) == (dre * cs + dim * sn) \div WU
BalIm(dre, dim, cs, sn) == (dim * cs - dre * sn) \div WU
\* ------------------------------------------------ which frequencies exist (exact)
\* 40000 q^2 times the discriminant, for 2 zeta w = x / 10 and |f|^2 = f2
Disc(w, x, q, f2) == q * q * ((x * x) * (x * x) - 400 * w * w * x * x) + 40000 * f2
P2pos(w, x) == 200 * w * w > x * x
LowZero(w, q, f2) == q * q * w * w * w * w = f2
Low(w, x, q, f2) == Disc(w, x, q, f2) >= 0 /\ P2pos(w, x) /\ q * q * w * w * w * w > f2
High(w, x, q, f2) == Disc(w, x, q, f2) >= 0 /\ (P2pos(w, x) \/ q * q * w * w * w * w < f2)
Ambiguous(w, x, q, f2) == Disc(w, x, q, f2) = 0 \/ LowZero(w, q, f2)
Count(w, x, q, f2) == (IF Low(w, x, q, f2) THEN 1 ELSE 0) + (IF High(w, x, q, f2) THEN 1 ELSE 0)
\* ------------------------------------------------ interpolation along a backbone
\* value (units 1/RU) at the reference num / den between references R0 and R0 + g with integer values a, b
Lerp(a, b, R0, g, num, den) == (RU * (a * g * den + (num - R0 * den) * (b - a)) + (g * den) \div 2) \div (g * den)
RoSeg(R, num, den) == IF num = R[Len(R)] * den THEN Len(R) - 1 ELSE CHOOSE i \in 1..(Len(R) - 1) : R[i] * den <= num /\ num < R[i + 1] * den
InRange(R, num, den) == R[1] * den <= num /\ num <= R[Len(R)] * den
LerpV(A, R, num, den) == LET i == RoSeg(R, num, den) IN
   [j \in 1..Len(A[1]) |-> Lerp(A[i][j], A[i + 1][j], R[i], R[i + 1] - R[i], num, den)]
=============================================================================
