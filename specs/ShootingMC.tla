----------------------------- MODULE ShootingMC -----------------------------
(* Soundness of the acceptance rule for motions: the samples of exact periodic motions of   *)
(* forced linear systems are accepted at every sample, and motions of a system with a       *)
(* missing or altered term are not.  One state per sample.                                  *)
EXTENDS Shooting
VARIABLES S, i, ps, w, z, u0, v0, bad
\* u = A cos + B sin;  with w = 2 pi / T approximated by the rational g / 1000 per unit time
G == 1571          \* T = 4: 2 pi / 4 = 1.5708
G2 == 2467         \* its square
Sol == { <<2, 0>>, <<0, 2>>, <<1, -2>> }
Sys(c, k, s) ==    \* forcing that makes s the response of m = 1, c, k (units 1/U as Fc is scaled below)
  [n |-> 1, M |-> <<<<1>>>>, C |-> <<<<c>>>>, K |-> <<<<k>>>>, forces |-> <<>>, T |-> 4, nt |-> 48,
   fc |-> s[1] * (U * k - G2) + s[2] * c * G, fs |-> s[2] * (U * k - G2) - s[1] * c * G, s |-> s]
X(s, k) == (s[1] * Cos(4 * k) + s[2] * Sin(4 * k) + 500) \div 1000
V(s, k) == ((s[2] * (Cos(4 * k) \div 100) - s[1] * (Sin(4 * k) \div 100)) * G + 5000) \div 10000
Ext(q, k) == (q.fc * (Cos(4 * k) \div 100) + q.fs * (Sin(4 * k) \div 100) + 5000) \div 10000
R(q, k) == <<Ext(q, k) - q.C[1][1] * V(q.s, k) - q.K[1][1] * X(q.s, k)>>
\* altered laws: no sine forcing, wrong sign of damping, half the stiffness
RBad(q, k) == << <<(q.fc * (Cos(4 * k) \div 1000)) \div 1000 - q.C[1][1] * V(q.s, k) - q.K[1][1] * X(q.s, k)>>,
                 <<Ext(q, k) + q.C[1][1] * V(q.s, k) - q.K[1][1] * X(q.s, k)>>,
                 <<Ext(q, k) - q.C[1][1] * V(q.s, k) - (q.K[1][1] * X(q.s, k)) \div 2>> >>
Init == /\ S \in {Sys(c, k, s) : c \in 1..2, k \in {1, 4, 7}, s \in Sol}
        /\ i = 0 /\ w = <<0>> /\ z = <<0>> /\ u0 = <<X(S.s, 0)>> /\ v0 = <<V(S.s, 0)>>
        /\ bad = << <<0>>, <<0>>, <<0>> >> /\ ps = <<>>
Next == /\ i + 2 <= S.nt
        /\ i' = i + 2
        /\ w' = Acc(w, <<V(S.s, i)>>, <<V(S.s, i + 1)>>, <<V(S.s, i + 2)>>)
        /\ z' = Acc(z, R(S, i), R(S, i + 1), R(S, i + 2))
        /\ bad' = [b \in 1..3 |-> Acc(bad[b], RBad(S, i)[b], RBad(S, i + 1)[b], RBad(S, i + 2)[b])]
        /\ ps' = Append(ps, [b \in 1..3 |-> ImpulseOk(S, v0, <<V(S.s, i + 2)>>, bad'[b], 20)])
        /\ UNCHANGED <<S, u0, v0>>
Spec == Init /\ [][Next]_<<S, i, ps, w, z, u0, v0, bad>>
Accepts == PathOk(S, u0, <<X(S.s, i)>>, w, 20) /\ ImpulseOk(S, v0, <<V(S.s, i)>>, z, 20)
Rejects == i = S.nt => \A b \in 1..3 :
   (IF b = 1 THEN HAbs(S.fs) > 300 ELSE TRUE) => \E k \in 1..Len(ps) : ~ps[k][b]
\* the exact flow: turns compose, four periods return, the response is the fixed point
Pts == {<<a, b>> : a \in -3..3, b \in -3..3}
ASSUME \A p, q \in 0..7, x \in Pts : Quarter(p, Quarter(q, x)) = Quarter(p + q, x)
ASSUME \A p \in 0..7, x \in Pts : x = Quarter(4 - (p % 4), Quarter(p, x))
ASSUME \A p \in 1..7, x, y \in Pts : ModeRes(p, x, y) = <<0, 0>> <=> (x = y \/ (p % 4) = 0)
=============================================================================
