---------------------------- MODULE MemorylessMC ----------------------------
(* The laws and their derivatives over small integer displacements.                    *)
EXTENDS Memoryless
VARIABLES el, u
Els == { [kind |-> k, nl |-> 1, a |-> <<a>>] : k \in {"cubic", "quintic", "damp"}, a \in {1, 3} }
   \cup { [kind |-> "uni", nl |-> 1, a |-> <<a>>, d2 |-> <<d>>, N |-> <<n>>] : a \in {1, 2}, d \in {-3, -1, 1, 3}, n \in {-1, 0, 2} }
   \cup { [kind |-> "iwanbb", nl |-> 1, P |-> p, chi |-> c, b1 |-> b[1], b2 |-> b[2]] :
             p \in {3, 5}, c \in {0, 1, 2}, b \in {<<0, 1>>, <<1, 1>>, <<2, 3>>} }
   \cup { [kind |-> "iwanhalf", nl |-> 1, p |-> p, k |-> k, b1 |-> b[1], b2 |-> b[2]] :
             p \in {2, 3}, k \in {3, 5}, b \in {<<0, 1>>, <<1, 1>>, <<2, 3>>} }
   \cup { [kind |-> "poly", nl |-> 2, E |-> << <<e1, 2>>, <<-1, e2>> >>, q |-> << q1, q2 >>] :
             e1 \in {1, 3}, e2 \in {-2, 1}, q1 \in {<<2, 0>>, <<1, 1>>, <<0, 2>>, <<1, 0>>}, q2 \in {<<2, 1>>, <<0, 2>>, <<1, 2>>, <<0, 1>>} }
Init == el \in Els /\ u \in {<<x, y>> : x \in -8..8, y \in (IF el.nl = 2 THEN -3..3 ELSE {0})}
        /\ (el.kind = "iwanhalf" => u[1] \in {0, 1, 4, -1, -4})
Next == UNCHANGED <<el, u>>
Spec == Init /\ [][Next]_<<el, u>>
L(x) == Law(el, x, x, 1)
D(x) == DU(el, x, x, 1, 1) + DV(el, x, x, 1, 1)
At(d) == [u EXCEPT ![1] = u[1] + d]
\* exact central differences
Central ==
  CASE el.kind \in {"cubic", "damp"} -> L(At(1)) - L(At(-1)) = 2 * D(u) + 2 * el.a[1]
    [] el.kind = "quintic" -> L(At(1)) - L(At(-1)) = 2 * D(u) + el.a[1] * (20 * u[1] * u[1] + 2)
    [] el.kind = "poly" -> \A j, k \in 1..2 :     \* second degree in each variable: central differences exact
          LET P(d) == [u EXCEPT ![k] = u[k] + d]
          IN Law(el, P(1), u, j) - Law(el, P(-1), u, j) = 2 * DU(el, u, u, j, k)
    [] OTHER -> TRUE
Shape ==
  CASE el.kind = "uni" -> /\ L(u) >= -2 * el.N[1]
                          /\ L(At(1)) - L(u) >= D(u)                 \* convex
                          /\ L(u) - L(At(-1)) <= D(u)
                          /\ (2 * u[1] <= el.d2[1] => L(u) = -2 * el.N[1])
    [] el.kind = "iwanhalf" ->      \* between the squares m^2 and (m+1)^2 the chord lies between the end slopes
          LET m == Root(MAbs(u[1])) n == (m + 1) * (m + 1) f == Law(el, <<n>>, <<0>>, 1)
          IN /\ L([u EXCEPT ![1] = -u[1]]) = -L(u)
             /\ (u[1] >= 0 => /\ f >= L(u) /\ f <= IhFs(el)
                              /\ f - L(u) <= D(u) * (n - u[1])
                              /\ (m < el.p - 1 => f - L(u) >= DU(el, <<n>>, <<0>>, 1, 1) * (n - u[1])))
             /\ (m >= el.p => L(u) = MSgn(u[1]) * IhFs(el))
             /\ (u[1] = 0 => D(u) = IhA(el))
    [] el.kind = "iwanbb" -> /\ L([u EXCEPT ![1] = -u[1]]) = -L(u)
                             /\ L(At(1)) >= L(u) /\ L(u) <= IwFs(el) /\ L(u) >= -IwFs(el)
                             /\ (u[1] >= 0 => L(At(1)) - L(u) <= D(u))   \* concave for positive displacement
                             /\ (u[1] >= el.P => L(u) = IwFs(el))
                             /\ (u[1] = 0 => D(u) = IwA(el))            \* starts at the tangent stiffness
    [] OTHER -> TRUE
=============================================================================
