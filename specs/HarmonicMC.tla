----------------------------- MODULE HarmonicMC -----------------------------
(* Bounded model: coefficients subjected to delays, differentiation; exact with       *)
(* quarter-period delays.  Invariants tie layout, series, derivative and delay.       *)
EXTENDS Harmonic, FiniteSets
CONSTANTS MaxH, A, C
VARIABLES h, x, x0, t
vars == <<h, x, x0, t>>
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortSet(S \ {m})
Init == /\ \E S \in (SUBSET (0..MaxH)) \ {{}} : Cardinality(S) <= C /\ h = SortSet(S)
        /\ x0 \in [1..NhcOf(h) -> {0, 1, A}]
        /\ x = x0 /\ t = 0
L == Layout(h)
Quarter(v) == [r \in 1..Len(L) |-> Delay(L, v, 48)[r] \div 1000000]
Next == t < 4 /\ t' = t + 1 /\ x' = Quarter(x) /\ UNCHANGED <<h, x0>>
Spec == Init /\ [][Next]_vars
LayoutOk == /\ Len(L) = NhcOf(h)
            /\ \A i \in 1..Len(h) : L[CosRow(h, i)] = <<h[i], "c">>
            /\ \A i \in 1..Len(h) : h[i] # 0 => L[SinRow(h, i)] = <<h[i], "s">>
            /\ Cardinality({L[r] : r \in 1..Len(L)}) = Len(L)
DelayIsShift == \A j \in 0..11 : Series(L, x, j, 12) = Series(L, x0, j - 3 * t, 12)
FullTurn == t = 4 => x = x0
EnergyKept == HSum(LAMBDA r : x[r] * x[r], Len(L)) = HSum(LAMBDA r : x0[r] * x0[r], Len(L))
DerivCommutes == Deriv(L, Quarter(x)) = Quarter(Deriv(L, x))
\* harmonic balance of  m x'' + c x' + k x  is the stiffness applied to the coefficients
StiffIsEquationOfMotion ==
  LET m == 2  c == 3  k == 7  w == 2 IN
  \A r \in 1..Len(L) : HSum(LAMBDA q : StiffEntry(L, r, q, m, c, k, w) * x[q], Len(L))
       = m * w * w * DerivN(L, x, 2)[r] + c * w * Deriv(L, x)[r] + k * x[r]
StiffDwIsDerivative ==    \* symmetric difference is exact for a quadratic
  LET m == 2  c == 3  k == 7 IN
  \A r \in 1..Len(L), q \in 1..Len(L), w \in 1..3 :
     StiffEntry(L, r, q, m, c, k, w + 1) - StiffEntry(L, r, q, m, c, k, w - 1) = 2 * StiffDw(L, r, q, m, c, w)
=============================================================================
