SPECIFICATION Spec
CONSTANTS MaxH = 4
 A = 3
 C = 2
INVARIANTS LayoutOk DelayIsShift FullTurn EnergyKept DerivCommutes StiffIsEquationOfMotion StiffDwIsDerivative
CHECK_DEADLOCK FALSE
