------------------------------ MODULE NewtonMC ------------------------------
EXTENDS Newton, Sequences, FiniteSets, TLC
CONSTANTS MAXS, FREQS
VARIABLES c, s, log
Init == /\ c \in [max : MAXS, freq : FREQS, ls : {0, 2}] /\ s = NStart(c) /\ log = <<>>
DoEval == /\ s.ph = "eval"
          /\ \E nan \in BOOLEAN : s' = Evaluated(c, s, nan)
          /\ log' = Append(log, IF WantsJacobian(s) THEN "J" ELSE "R") /\ UNCHANGED c
DoLs == s.ph = "ls" /\ s' = [s EXCEPT !.ph = "test"] /\ UNCHANGED <<c, log>>
DoTest == /\ s.ph = "test"
          /\ \E stop \in BOOLEAN, acc \in BOOLEAN : s' = Tested(c, s, stop, acc)
          /\ UNCHANGED <<c, log>>
Next == DoEval \/ DoLs \/ DoTest
Spec == Init /\ [][Next]_<<c, s, log>> /\ WF_<<c, s, log>>(Next)
Counts == s.nf = Len(log) /\ s.nj = Cardinality({i \in 1..Len(log) : log[i] = "J"})
NeverTooMany == s.nf <= c.max /\ s.i <= c.max
Cycle == \A i \in 1..Len(log) : (log[i] = "J") <=> ((i - 1) % c.freq = 0)
VerdictOnlyIf == Success(s) => s.ph = "done"
AcceptOnlyAtLimit == s.out \in {"accepted", "limit"} => s.i = c.max
NanNeverSucceeds == s.out = "nan" => ~Success(s)
Terminates == <>(s.ph = "done")
=============================================================================
