SPECIFICATION Spec
CONSTANTS MaxH = 4
 A = 3
 C = 3
INVARIANTS LayoutOk DelayIsShift FullTurn EnergyKept DerivCommutes StiffIsEquationOfMotion StiffDwIsDerivative
CHECK_DEADLOCK FALSE
