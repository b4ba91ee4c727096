----------------------------- MODULE WorkflowMC -----------------------------
(* The workflow relations on small models.  A history changes one coordinate of the motion  *)
(* at a time; the fixed-point balance must be linear in the motion within its tolerance,    *)
(* reject every coordinate change that matters, and the slider law must accept exactly the  *)
(* steady cycles of a slider driven through the motion.                                     *)
EXTENDS Workflow
CONSTANTS B
VARIABLES S, u, k
Step == 20000
Sys == { [n |-> 1, M |-> << <<mm>> >>, C |-> << <<c>> >>, K |-> << <<kk>> >>, forces |-> <<>>, h |-> h, F |-> [i \in 1..Len(WRows(h)) |-> 1],
          base |-> <<FALSE>>, recov |-> <<1>>, order |-> 0] :
            mm \in {1, 3}, c \in {2, 15}, kk \in {1, 4}, h \in {<<1>>, <<0, 1>>, <<1, 3>>} }
NU == Len(WRows(S.h))
P(v) == [u |-> v, w |-> 12345, w2 |-> 15240, xi |-> 1000, x |-> <<100000>>, fh |-> <<>>, phi |-> <<>>, amp |-> 0]
Init == /\ S \in Sys /\ u = [i \in 1..Len(WRows(S.h)) |-> 0] /\ k = 0
Next == /\ k < B
        /\ \E i \in 1..NU, d \in {-3, 1} : u' = [u EXCEPT ![i] = @ + d * Step]
        /\ k' = k + 1 /\ UNCHANGED S
Spec == Init /\ [][Next]_<<S, u, k>>
Rows == 1..NU
Lin(v, r) == LinearPart(S, WRows(S.h), P(v), r, 1)
E(i) == [j \in 1..NU |-> IF j = i THEN Step ELSE 0]
Tol(v, r) == LinTol(S, WRows(S.h), P(v), r, 1)
\* products in two halves are the products
ASSUME Product == \A a \in {0, 1, 9999, 10000, 10001, 45678}, b \in {-45000, -10000, -1, 0, 7, 44000} :
             MulS(a, b) = (a * b) \div WS
\* superposition
Linear == \A r \in Rows, i \in 1..NU : Abs(Lin([u EXCEPT ![i] = @ + Step], r) - Lin(u, r) - Lin(E(i), r)) <= 2 * Tol(u, r)
\* the damping rows have opposite signs and the power of the inertia and stiffness forces over a cycle vanishes
Power == LET L == WRows(S.h) IN
  \A r \in Rows : (L[r][1] > 0 /\ L[r][2] = "c") =>
     LET v == [j \in 1..NU |-> IF j = r \/ j = r + 1 THEN Step ELSE 0] IN
       Abs((Lin(v, r) - Lin(E(r), r)) + (Lin(v, r + 1) - Lin(E(r + 1), r + 1))) <= 4 * Tol(v, r)
Felt == \A i \in 1..NU : \E r \in Rows : Abs(Lin(E(i), r)) > 300
\* slider through the motion u (as a closed series): its steady cycle satisfies the law, no other does
RECURSIVE Drive(_, _, _, _, _)
Drive(q, i, f, kt, lim) == IF i > Len(q) THEN <<>>
  ELSE LET g == Clip(Slope(kt, f, q[IF i = 1 THEN Len(q) ELSE i - 1], q[i]), lim) IN <<g>> \o Drive(q, i + 1, g, kt, lim)
Cycle(q, kt, lim) == LET a == Drive(q, 1, 0, kt, lim) IN Drive(q, 1, a[Len(a)], kt, lim)
Motion == u \o <<0, Step>>
Slider == \A lim \in {10000, 30000} :
  LET c == Cycle(Motion, 1, lim) IN
  /\ SliderLaw(Motion, c, 1, lim)
  /\ \A i \in 1..Len(c) : ~SliderLaw(Motion, [c EXCEPT ![i] = @ + 5000], 1, lim)
Cubic == LET q == Motion IN
  /\ CubicLaw(q, [i \in 1..Len(q) |-> MulS(MulS(q[i] \div 10, q[i] \div 10), q[i])], 1)
  /\ ~CubicLaw(q, [i \in 1..Len(q) |-> MulS(MulS(q[i] \div 10, q[i] \div 10), q[i]) + (IF i = 1 THEN 5000 + Abs(q[i]) ELSE 0)], 1)
=============================================================================
