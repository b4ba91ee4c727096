----------------------------- MODULE RoughContact -----------------------------
(* Rough contact with elastic asperities and constant-friction tangential law, in exact *)
(* integers: elastic modulus 3, Poisson ratio 0, asperity radius 100.  An asperity at    *)
(* approach k^2 beyond its gap carries the normal force 20 k^3, has tangential           *)
(* stiffness 30 k, slip limit m/4 * 20 k^3.                                              *)
(* Element el: gaps[i], w[i] (weights), m (friction coefficient in quarters, even).      *)
(* State: up = <<x, y>>, f[i] = <<fx, fy>> of every asperity.                            *)
EXTENDS Integers, Sequences, TLC
RAbs(x) == IF x < 0 THEN -x ELSE x
RClip(x, b) == IF x > b THEN b ELSE IF x < -b THEN -b ELSE x
Squares == {1, 4, 9, 16, 25, 36, 49, 64}
Root(d) == CASE d <= 0 -> 0 [] d = 1 -> 1 [] d = 4 -> 2 [] d = 9 -> 3 [] d = 16 -> 4 [] d = 25 -> 5
             [] d = 36 -> 6 [] d = 49 -> 7 [] d = 64 -> 8
K(el, i, un) == Root(un - el.gaps[i])
RFn(k) == 20 * k * k * k
RLim(el, k, pre) == IF pre THEN 0 ELSE 5 * el.m * k * k * k
RZero(el) == [up |-> <<0, 0>>, f |-> [i \in 1..Len(el.gaps) |-> <<0, 0>>]]
RPred(el, st, u, i, a) == 30 * K(el, i, u[3]) * (u[a] - st.up[a]) + st.f[i][a]
RNew(el, st, u, pre) == [i \in 1..Len(el.gaps) |-> [a \in 1..2 |->
    RClip(RPred(el, st, u, i, a), RLim(el, K(el, i, u[3]), pre))]]
RAdvance(el, st, u, pre) == [up |-> <<u[1], u[2]>>, f |-> RNew(el, st, u, pre)]
RECURSIVE RSum(_, _)
RSum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + RSum(f, n - 1)
RForce(el, fa, u) == <<RSum(LAMBDA i : el.w[i] * fa[i][1], Len(el.gaps)),
                       RSum(LAMBDA i : el.w[i] * fa[i][2], Len(el.gaps)),
                       RSum(LAMBDA i : el.w[i] * RFn(K(el, i, u[3])), Len(el.gaps))>>
RStatus(el, st, u, i, a, pre) ==
  LET k == K(el, i, u[3])  p == RPred(el, st, u, i, a)  b == RLim(el, k, pre)
  IN IF k = 0 \/ pre THEN "free" ELSE IF p > b THEN "slip+" ELSE IF p < -b THEN "slip-"
     ELSE IF p = b \/ p = -b THEN "tie" ELSE "stick"
\* derivatives times 120
RDNn(el, u) == RSum(LAMBDA i : el.w[i] * 3600 * K(el, i, u[3]), Len(el.gaps))
\* directional derivative (times 120) of the force of asperity i in direction a; du[1..3] direction,
\* dup, df: derivatives of the previous displacement and (times 120) of the previous force
RDf(el, st, u, du, dup, df, i, a, pre) ==
  LET k == K(el, i, u[3])  z == RStatus(el, st, u, i, a, pre) IN
  CASE z = "free" -> 0
    [] z \in {"stick", "tie"} -> (1800 \div k) * (u[a] - st.up[a]) * du[3] + 3600 * k * (du[a] - dup[a]) + df
    [] z = "slip+" -> 900 * el.m * k * du[3]
    [] z = "slip-" -> -900 * el.m * k * du[3]
RTie(el, st, u, pre) == \E i \in 1..Len(el.gaps), a \in 1..2 : RStatus(el, st, u, i, a, pre) = "tie"

\* ------------------------------------------------------------ periodic
RECURSIVE RCycle(_, _, _, _, _, _)
RCycle(el, ul, du, t, acc, keep) ==
  IF t > Len(ul) THEN acc
  ELSE LET st == acc.st
           nst == RAdvance(el, st, ul[t], FALSE)
           nd == [up |-> <<du[t][1], du[t][2]>>, f |-> [i \in 1..Len(el.gaps) |-> [a \in 1..2 |->
                    RDf(el, st, ul[t], du[t], acc.dst.up, acc.dst.f[i][a], i, a, FALSE)]]]
           D(a) == RSum(LAMBDA i : el.w[i] * nd.f[i][a], Len(el.gaps))
       IN RCycle(el, ul, du, t + 1,
            [st |-> TLCEval(nst), dst |-> TLCEval(nd), tie |-> acc.tie \/ RTie(el, st, ul[t], FALSE),
             f |-> IF keep THEN Append(acc.f, RForce(el, nst.f, ul[t])) ELSE <<>>,
             d |-> IF keep THEN Append(acc.d, <<D(1), D(2), RDNn(el, ul[t]) * du[t][3]>>) ELSE <<>>], keep)
RSteady(el, ul, du, u0) ==
  LET a0 == [st |-> [up |-> u0, f |-> RZero(el).f], dst |-> [up |-> <<0, 0>>, f |-> RZero(el).f],
             tie |-> FALSE, f |-> <<>>, d |-> <<>>]
      a1 == TLCEval(RCycle(el, ul, du, 1, a0, FALSE))
  IN TLCEval(RCycle(el, ul, du, 1, a1, TRUE))
=============================================================================
