------------------------------- MODULE RomMC -------------------------------
(* The rules of Rom on small exact instances: frequencies of the response equation exist    *)
(* exactly where counted (shown on squares), rotations compose, interpolation is exact at   *)
(* stored rows and between.  A scan over w, x, q, f^2.                                      *)
EXTENDS Rom, TLC, FiniteSets
VARIABLES w, x, q, f
vars == <<w, x, q, f>>
Init == w \in 1..3 /\ x \in {0, 2, 6, 10, 20, 30} /\ q = 1 /\ f = 0
Next == \/ q < 4 /\ q' = q + 1 /\ UNCHANGED <<w, x, f>>
        \/ f < 12 /\ f' = f + 1 /\ UNCHANGED <<w, x, q>>
Spec == Init /\ [][Next]_vars
\* scan of Omega^2 = k / 16:  sign changes of  q^2 |D|^2 - f^2  (times 25600) bracket the roots
Val(k) == q * q * (100 * ((16 * w * w - k) * (16 * w * w - k)) + 16 * x * x * k) - 25600 * f * f
KMAX == 16 * 40
Crossings == {k \in 0..KMAX : (Val(k) > 0 /\ Val(k + 1) < 0) \/ (Val(k) < 0 /\ Val(k + 1) > 0)}
Touches == {k \in 0..(KMAX + 1) : Val(k) = 0}
Roots == (~Ambiguous(w, x, q, f * f) /\ Touches = {}) =>
    \* roots closer than the scan are invisible: then both or none
    \/ Cardinality(Crossings) = Count(w, x, q, f * f)
    \/ Crossings = {} /\ Count(w, x, q, f * f) = 2
\* more force never loses the upper frequency; a larger amplitude never gains one
Monotone == (P2pos(w, x) /\ High(w, x, q, f * f)) => High(w, x, q, (f + 1) * (f + 1))
MonotoneQ == (P2pos(w, x) /\ High(w, x, q + 1, f * f)) => High(w, x, q, f * f)
\* without damping the free vibration has its natural frequency as double root
Undamped == x = 0 => Disc(w, x, q, 0) = 0
ASSUME \A c \in -3..3, s \in -3..3 : Turn(<<c>>, <<s>>, 0, WU, 4) = <<<<c>>, <<s>>>> /\ Turn(<<c>>, <<s>>, 0, WU, 2) = <<<<-c>>, <<-s>>>>
ASSUME \A n \in 0..400 : ISqrt(n) * ISqrt(n) <= n /\ (ISqrt(n) + 1) * (ISqrt(n) + 1) > n
ASSUME \A a, b \in -3..3, g \in 1..3 : Lerp(a, b, 2, g, 2, 1) = RU * a /\ Lerp(a, b, 2, g, 2 + g, 1) = RU * b
=============================================================================
