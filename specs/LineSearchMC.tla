---------------------------- MODULE LineSearchMC ----------------------------
EXTENDS LineSearch, TLC, Json, Sequences, FiniteSets
CONSTANTS GS, ITERS, TOLD, GEN
VARIABLES c, b, seen
Init == /\ c \in [iters : ITERS, tn : {1}, td : TOLD, same : BOOLEAN]
        /\ b \in {Begin(c, g - 8) : g \in GS \ {8}}
        /\ seen = <<>>
Step == /\ b.ph # "done"
        /\ \E g \in GS : /\ b' = Eval(c, b, g - 8)
                         /\ seen' = Append(seen, <<Probe(c, b), g - 8>>)
        /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_<<c, b, seen>> /\ WF_<<c, b, seen>>(Next)

One == Pow2(c.iters)
G(k) == IF k = 0 THEN b.g0 ELSE LET i == CHOOSE i \in 1..Len(seen) : seen[i][1] = k IN seen[i][2]
Evaluated(k) == k = 0 \/ \E i \in 1..Len(seen) : seen[i][1] = k

\* the returned fraction is in (0, 1] and was evaluated
Safe == b.ph = "done" => b.out > 0 /\ b.out <= One /\ Evaluated(b.out)
Bracket == /\ b.lo < b.hi /\ b.lo >= 0 /\ b.hi <= One
           /\ b.ph # "full" => Evaluated(b.lo) /\ Evaluated(b.hi) /\ G(b.lo) = b.glo /\ G(b.hi) = b.ghi
\* the lower end never has the opposite sign of the start, and the root stays bracketed
SignBracket == (b.ph = "mid") => LSgn(b.glo) * LSgn(b.g0) >= 0 /\ LSgn(b.glo) * LSgn(b.ghi) <= 0
\* with the same-sign option the sign change is passed only to avoid a zero step
NoOvershoot == (b.ph = "done" /\ c.same /\ LSgn(G(b.out)) * LSgn(b.g0) < 0) => b.lo = 0
FullStepWhenSafe == (b.ph = "done" /\ b.n = 1) => b.out = One
\* distinct evaluation points; the count is the number of evaluations
Counted == b.n = Len(seen) /\ Cardinality({seen[i][1] : i \in 1..Len(seen)}) = Len(seen)
\* without the same-sign option, no other bracket end has a smaller residual
Best == (b.ph = "done" /\ ~c.same /\ b.n > 1 /\ b.lo > 0) =>
          LAbs(G(b.out)) <= LAbs(b.glo) /\ LAbs(G(b.out)) <= LAbs(b.ghi)
Limit == b.n <= c.iters + 1
Terminates == <>(b.ph = "done")
Gen == GEN /\ b.ph = "done" => PrintT(<<"BEH", ToJson([c |-> c, g0 |-> b.g0, s |-> seen])>>)
=============================================================================
