------------------------------ MODULE Friction ------------------------------
(* Spring-slider elements.                                                             *)
(* An element el has                                                                   *)
(*   tan   sequence of [j, n]: local index of a tangential dof and of its normal dof   *)
(*         (n = 0: no normal dof, constant slip limits)                                *)
(*   nrm   sequence of local indices of normal dofs                                    *)
(*   sl    sequence of sliders [g, lim, w]: gain, slip limit, weight; the slider of a  *)
(*         tangential dof carries s, |s| <= lim, and contributes w * s to the force    *)
(*   kap, gap2, m:  normal force = kap * m4 ... in units where friction limit is       *)
(*         m * Pen / 4 and normal force Pen = kap * max(2 u_n - gap2, 0)               *)
(*   nl    number of local dofs                                                        *)
(* State of an element: up (previous displacement of every tangential dof), s.         *)
EXTENDS Integers, Sequences, TLC

Pos0(x) == IF x < 0 THEN 0 ELSE x
Clip(x, b) == IF x > b THEN b ELSE IF x < -b THEN -b ELSE x
Pen(el, un) == el.kap * Pos0(2 * un - el.gap2)
\* slip limit of slider i of tangential dof a at local displacement u; pre: frictionless mode
Lim(el, a, i, u, pre) == IF pre THEN 0
                         ELSE IF el.tan[a].n = 0 THEN el.sl[i].lim
                         ELSE (el.m * Pen(el, u[el.tan[a].n])) \div 4
Zero(el) == [up |-> [a \in 1..Len(el.tan) |-> 0],
             s |-> [a \in 1..Len(el.tan) |-> [i \in 1..Len(el.sl) |-> 0]]]
Pred(el, st, a, i, u) == el.sl[i].g * (u[el.tan[a].j] - st.up[a]) + st.s[a][i]
\* the law: sliders move only when slipping
NewS(el, st, u, pre) == [a \in 1..Len(el.tan) |-> [i \in 1..Len(el.sl) |->
                            Clip(Pred(el, st, a, i, u), Lim(el, a, i, u, pre))]]
Advance(el, st, u, pre) == [up |-> [a \in 1..Len(el.tan) |-> u[el.tan[a].j]], s |-> NewS(el, st, u, pre)]

RECURSIVE FSum(_, _)
FSum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + FSum(f, n - 1)
TanOf(el, j) == IF \E a \in 1..Len(el.tan) : el.tan[a].j = j
                THEN CHOOSE a \in 1..Len(el.tan) : el.tan[a].j = j ELSE 0
\* local force at local dof j
LForce(el, s, u, j) == LET a == TanOf(el, j) IN
                       IF a # 0 THEN FSum(LAMBDA i : el.sl[i].w * s[a][i], Len(el.sl)) ELSE Pen(el, u[j])

\* slider status: "stick", "slip+", "slip-", "tie"
Status(el, st, a, i, u, pre) ==
  LET p == Pred(el, st, a, i, u)  b == Lim(el, a, i, u, pre)
      open == el.tan[a].n # 0 /\ Pen(el, u[el.tan[a].n]) = 0
  IN IF open THEN "open" ELSE IF p > b THEN "slip+" ELSE IF p < -b THEN "slip-"
     ELSE IF p = b \/ p = -b THEN "tie" ELSE "stick"
\* derivative (times 4) of local force a (tangential) with respect to local displacement k,
\* ties counted as sticking (ch) or slipping
DTan(el, st, a, u, pre, k, ch) ==
  FSum(LAMBDA i :
     LET z == Status(el, st, a, i, u, pre)
         n == el.tan[a].n
         sg == IF z = "slip-" \/ (z = "tie" /\ Pred(el, st, a, i, u) < 0) THEN -1 ELSE 1
         sticks == z = "stick" \/ (z = "tie" /\ ch)
     IN el.sl[i].w *
        (IF sticks THEN (IF k = el.tan[a].j THEN 4 * el.sl[i].g ELSE 0)
         ELSE IF n # 0 /\ k = n /\ ~pre /\ z # "open" THEN sg * el.m * 2 * el.kap ELSE 0), Len(el.sl))
DNrm(el, u, j, k) == IF j = k /\ 2 * u[j] - el.gap2 > 0 THEN 8 * el.kap ELSE 0
DLoc(el, st, u, pre, j, k, ch) == LET a == TanOf(el, j) IN
  IF a # 0 THEN DTan(el, st, a, u, pre, k, ch[a]) ELSE DNrm(el, u, j, k)

\* ------------------------------------------------------------ periodic excitation
\* local displacements ul[t] (t = 1..nt), start with sliders unloaded at u0 (per tangential dof);
\* dual part: du[t], du0.  Result of the second pass: forces and their directional derivatives.
StartAt(el, u0) == [up |-> u0, s |-> [a \in 1..Len(el.tan) |-> [i \in 1..Len(el.sl) |-> 0]]]
\* dual state: d[a][i] derivative of s times 4, dup[a]
NewD(el, st, dst, u, du) == [a \in 1..Len(el.tan) |-> [i \in 1..Len(el.sl) |->
   LET z == Status(el, st, a, i, u, FALSE)
       n == el.tan[a].n
   IN IF z = "stick" \/ z = "tie" THEN 4 * el.sl[i].g * (du[el.tan[a].j] - dst.up[a]) + dst.s[a][i]
      ELSE IF z = "open" \/ n = 0 THEN 0
      ELSE (IF z = "slip+" THEN 1 ELSE -1) * el.m * 2 * el.kap * du[n]]]
RECURSIVE Cycle(_, _, _, _, _, _)
\* acc: [f |-> forces, d |-> derivatives (times 4), tie |-> BOOLEAN, st, dst]
Cycle(el, ul, du, t, acc, keep) ==
  IF t > Len(ul) THEN acc
  ELSE LET st == acc.st
           nst == Advance(el, st, ul[t], FALSE)
           nd == [up |-> [a \in 1..Len(el.tan) |-> du[t][el.tan[a].j]], s |-> NewD(el, st, acc.dst, ul[t], du[t])]
           \* (a slider that is pushed to exactly its limit has no unique derivative)
           tie == \E a \in 1..Len(el.tan), i \in 1..Len(el.sl) :
                     Status(el, st, a, i, ul[t], FALSE) = "tie"
           F(j) == LForce(el, nst.s, ul[t], j)
           D(j) == LET a == TanOf(el, j) IN
                   IF a # 0 THEN FSum(LAMBDA i : el.sl[i].w * nd.s[a][i], Len(el.sl))
                   ELSE DNrm(el, ul[t], j, j) * du[t][j]
       IN Cycle(el, ul, du, t + 1,
                [st |-> nst, dst |-> nd, tie |-> acc.tie \/ tie,
                 f |-> IF keep THEN Append(acc.f, [j \in 1..el.nl |-> F(j)]) ELSE <<>>,
                 d |-> IF keep THEN Append(acc.d, [j \in 1..el.nl |-> D(j)]) ELSE <<>>], keep)
Steady(el, ul, du, u0, du0) ==
  LET a0 == [st |-> StartAt(el, u0),
             dst |-> [up |-> du0, s |-> StartAt(el, u0).s],
             tie |-> FALSE, f |-> <<>>, d |-> <<>>]
      a1 == TLCEval(Cycle(el, ul, du, 1, a0, FALSE))
  IN TLCEval(Cycle(el, ul, du, 1, a1, TRUE))
=============================================================================
