----------------------------- MODULE Memoryless -----------------------------
(* Forces that depend on the current displacement and velocity only.  An element el:   *)
(*   kind   "cubic", "quintic", "damp" (cubic in velocity), "uni" (one-sided spring),  *)
(*          "poly" (general polynomial), "iwanbb" (backbone of the distributed slider) *)
(*   nl     number of local dofs;  a[j] coefficients                                   *)
(*   uni:   force times 2:  a[j] * max(2 u - d2[j], 0) - 2 N[j]                        *)
(*   poly:  E[j][c] coefficients of monomials with exponents q[c][k]                   *)
(*   iwanbb: displacement in phimax / P, x = |u|:  x < P: A x - b2 x^(chi+2), else Fs, *)
(*          A = P^(chi+1) (b1+b2) (chi+2),  Fs = P^(chi+2) (b1 (chi+2) + b2 (chi+1))   *)
(*   iwanhalf: the same for half-integer exponents k/2 = chi + 2, at square displacements: *)
(*          displacement in phimax / p^2, |u| = m^2:  m < p: A m^2 - 2 b2 m^k, else Fs,  *)
(*          A = p^(k-2) (b1+b2) k,  Fs = p^k (b1 k + b2 (k-2))                            *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
MAbs(x) == IF x < 0 THEN -x ELSE x
MSgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE MSum(_, _)
MSum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + MSum(f, n - 1)
RECURSIVE MProd(_, _)
MProd(f(_), n) == IF n = 0 THEN 1 ELSE f(n) * MProd(f, n - 1)

IwA(el) == Pow(el.P, el.chi + 1) * (el.b1 + el.b2) * (el.chi + 2)
IwFs(el) == Pow(el.P, el.chi + 2) * (el.b1 * (el.chi + 2) + el.b2 * (el.chi + 1))
Root(x) == CHOOSE m \in 0..60 : m * m = x
IhA(el) == Pow(el.p, el.k - 2) * (el.b1 + el.b2) * el.k
IhFs(el) == Pow(el.p, el.k) * (el.b1 * el.k + el.b2 * (el.k - 2))
Law(el, u, v, j) ==
  CASE el.kind = "cubic" -> el.a[j] * Pow(u[j], 3)
    [] el.kind = "quintic" -> el.a[j] * Pow(u[j], 5)
    [] el.kind = "damp" -> el.a[j] * Pow(v[j], 3)
    [] el.kind = "uni" -> el.a[j] * (IF 2 * u[j] > el.d2[j] THEN 2 * u[j] - el.d2[j] ELSE 0) - 2 * el.N[j]
    [] el.kind = "poly" -> MSum(LAMBDA c : el.E[j][c] * MProd(LAMBDA k : Pow(u[k], el.q[c][k]), el.nl), Len(el.q))
    [] el.kind = "iwanbb" -> LET x == MAbs(u[j]) IN
         MSgn(u[j]) * (IF x < el.P THEN IwA(el) * x - el.b2 * Pow(x, el.chi + 2) ELSE IwFs(el))
    [] el.kind = "iwanhalf" -> LET m == Root(MAbs(u[j])) IN
         MSgn(u[j]) * (IF m < el.p THEN IhA(el) * m * m - 2 * el.b2 * Pow(m, el.k) ELSE IhFs(el))
\* derivative of local force j with respect to local displacement k (uni: times 2)
DU(el, u, v, j, k) ==
  IF el.kind = "poly"
  THEN MSum(LAMBDA c : IF el.q[c][k] = 0 THEN 0
                       ELSE el.E[j][c] * el.q[c][k] *
                            MProd(LAMBDA m : Pow(u[m], IF m = k THEN el.q[c][m] - 1 ELSE el.q[c][m]), el.nl), Len(el.q))
  ELSE IF j # k THEN 0
  ELSE CASE el.kind = "cubic" -> 3 * el.a[j] * Pow(u[j], 2)
         [] el.kind = "quintic" -> 5 * el.a[j] * Pow(u[j], 4)
         [] el.kind = "damp" -> 0
         [] el.kind = "uni" -> IF 2 * u[j] > el.d2[j] THEN 2 * el.a[j] ELSE 0
         [] el.kind = "iwanbb" -> LET x == MAbs(u[j]) IN
              IF x < el.P THEN IwA(el) - el.b2 * (el.chi + 2) * Pow(x, el.chi + 1) ELSE 0
         [] el.kind = "iwanhalf" -> LET m == Root(MAbs(u[j])) IN
              IF m < el.p THEN IhA(el) - el.b2 * el.k * Pow(m, el.k - 2) ELSE 0
\* at the end of the backbone the derivative is one-sided: the value just inside, for those local dofs
AtEnd(el, u) == CASE el.kind = "iwanbb" -> {j \in 1..el.nl : MAbs(u[j]) = el.P}
                  [] el.kind = "iwanhalf" -> {j \in 1..el.nl : MAbs(u[j]) = el.p * el.p}
                  [] OTHER -> {}
Inside(el) == CASE el.kind = "iwanbb" -> IwA(el) - el.b2 * (el.chi + 2) * Pow(el.P, el.chi + 1)
                [] el.kind = "iwanhalf" -> IhA(el) - el.b2 * el.k * Pow(el.p, el.k - 2)
DV(el, u, v, j, k) == IF el.kind = "damp" /\ j = k THEN 3 * el.a[j] * Pow(v[j], 2) ELSE 0
=============================================================================
