-------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic on pairs <<num, den>>, den > 0, in lowest terms.           *)
EXTENDS Integers, Sequences
LOCAL RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == IF n = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(RAbs(n), RAbs(d))
                       sg == IF d < 0 THEN -1 ELSE 1
                   IN <<sg * (n \div g), sg * (d \div g)>>
RInt(n) == <<n, 1>>
RDy(n, d) == Norm(n, d)
RAdd(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Gcd(RAbs(a[1]), b[2]) g2 == Gcd(RAbs(b[1]), a[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1  h2 == IF g2 = 0 THEN 1 ELSE g2
              IN Norm((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbsV(a) == <<RAbs(a[1]), a[2]>>
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE RDot(_, _)
RDot(u, v) == IF u = <<>> THEN <<0, 1>> ELSE RAdd(RMul(Head(u), Head(v)), RDot(Tail(u), Tail(v)))
RVAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
RVSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
RVScale(k, u) == [i \in 1..Len(u) |-> RMul(k, u[i])]
RVNeg(u) == [i \in 1..Len(u) |-> RNeg(u[i])]
RMatVec(m, v) == [i \in 1..Len(m) |-> RDot(m[i], v)]
RVec(ints, d) == [i \in 1..Len(ints) |-> Norm(ints[i], d)]
RMat(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> <<m[i][j], 1>>]]
=============================================================================
