----------------------------- MODULE ServicesMC -----------------------------
EXTENDS Services, TLC, Json
CONSTANTS MATS, LEN, GEN
VARIABLES h, log
Init == h = <<>> /\ log = <<>>
DoFactor == \E m \in MATS : Len(h) < 2 /\ h' = Factor(h, m) /\ log' = Append(log, [kind |-> "factor", m |-> m, hd |-> Len(h) + 1])
DoSolve == \E m \in MATS : UNCHANGED h /\ log' = Append(log, [kind |-> "solve", m |-> m, hd |-> 0])
DoFSolve == \E i \in 1..Len(h) : UNCHANGED h /\ log' = Append(log, [kind |-> "fsolve", m |-> 0, hd |-> i])
Next == Len(log) < LEN /\ (DoFactor \/ DoSolve \/ DoFSolve)
Spec == Init /\ [][Next]_<<h, log>>
\* a handle keeps the matrix it was made from; solves never change handles
HandlesStable == [][\A i \in 1..Len(h) : h'[i] = h[i]]_<<h, log>>
Own == \A j \in 1..Len(log) : log[j].kind = "fsolve" =>
          \E i \in 1..j-1 : log[i].kind = "factor" /\ log[i].hd = log[j].hd /\ Answers(h, log[j]) = log[i].m
Gen == GEN /\ Len(log) = LEN => PrintT(<<"BEH", ToJson(log)>>)
=============================================================================
