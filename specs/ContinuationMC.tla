--------------------------- MODULE ContinuationMC ---------------------------
(* Exhaustive exploration of the continuation protocol: the environment may make     *)
(* every attempt fail or succeed, with every evaluation count and parameter move.     *)
(* acc / log / tries are history variables used only by the properties.               *)
EXTENDS Continuation, TLC, Json, FiniteSets

CONSTANTS NFEV, MOVES, MAXSTEPS, NW, BACK, GEN, MAXHIST, INC, CB

VARIABLES c, s, acc, log, tries, hist
vars == <<c, s, acc, log, tries, hist>>

Configs ==
  { [ds0 |-> d0, dsmin |-> dm, dsmax |-> 64, maxsteps |-> ms, target |-> 8,
     incN |-> i, incD |-> 2, nw |-> w, dir |-> d, lam0 |-> 0, lam1 |-> d * 6,
     back |-> b, hascb |-> cb, tol |-> 0] :
       d0 \in {16, 40}, dm \in {16, 10}, ms \in MAXSTEPS, w \in NW, d \in {1, -1}, b \in BACK,
       i \in INC, cb \in CB }

Init == /\ c \in {k \in Configs : k.dsmin <= k.ds0}
        /\ s = Start(c) /\ acc = <<>> /\ log = <<>> /\ tries = <<>> /\ hist = <<>>

H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
Hsame == hist' = hist

InitConverges == /\ s.ph = "init" /\ s' = InitOk(c, s, 1) /\ acc' = <<1>>
                 /\ H([ok |-> TRUE, n |-> 1, m |-> 0]) /\ UNCHANGED <<c, log, tries>>
InitFails == /\ s.ph = "init" /\ s' = InitFail(c, s)
             /\ H([ok |-> FALSE, n |-> 1, m |-> 0]) /\ UNCHANGED <<c, acc, log, tries>>
Opening == /\ s.ph = "cb0" /\ s' = Opened(c, s) /\ log' = Append(log, <<"open", s.pts[1]>>)
           /\ Hsame /\ UNCHANGED <<c, acc, tries>>
AttemptOk == /\ s.ph = "loop"
             /\ \E n \in NFEV, m \in MOVES :
                  /\ s' = Accept(c, s, Len(s.pts) + 1, s.last + c.dir * (m - 4), n, s.ds)
                  /\ H([ok |-> TRUE, n |-> n, m |-> m - 4])
             /\ acc' = Append(acc, Len(s.pts) + 1)
             /\ tries' = Append(tries, <<s.ds, s.wi, TRUE>>)
             /\ UNCHANGED <<c, log>>
AttemptFails == /\ s.ph = "loop"
                /\ s' = Reject(c, s, s.ds)
                /\ H([ok |-> FALSE, n |-> 1, m |-> 0])
                /\ tries' = Append(tries, <<s.ds, s.wi, FALSE>>)
                /\ UNCHANGED <<c, acc, log>>
Report == /\ s.ph = "cb" /\ s' = Reported(c, s) /\ log' = Append(log, <<"pt", s.pts[Len(s.pts)]>>)
          /\ Hsame /\ UNCHANGED <<c, acc, tries>>
Close == /\ s.ph = "close" /\ s' = Closed(c, s) /\ log' = Append(log, <<"close", 0>>)
         /\ Hsame /\ UNCHANGED <<c, acc, tries>>
Return == /\ s.ph = "ret" /\ s' = Returned(c, s) /\ Hsame /\ UNCHANGED <<c, acc, log, tries>>

Next == \/ InitConverges \/ InitFails \/ Opening \/ AttemptOk \/ AttemptFails
        \/ Report \/ Close \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bound == Len(hist) <= MAXHIST

\* ----------------------------------------------------------------- properties
TypeOK == s.ph \in {"init", "refused", "cb0", "loop", "cb", "close", "ret", "over"}

\* C01: recorded points are exactly the accepted ones, in order
RecordedAreAccepted == s.pts = acc
\* C01: the callback log is a prefix of open, points 2.., close - complete at the end
CallbackBracket ==
  c.hascb =>
    /\ \A i \in 1..Len(log) :
         /\ (log[i][1] = "open") <=> (i = 1)
         /\ (log[i][1] = "pt") => log[i][2] = s.pts[i]
         /\ (log[i][1] = "close") => i = Len(log) /\ s.ph \in {"ret", "over"}
    /\ (s.ph \in {"ret", "over"}) =>
          Len(log) = Len(s.pts) + 1 /\ log[Len(log)][1] = "close"
NoCallbackWithout == ~c.hascb => log = <<>>
RefusedHasNothing == s.ph = "refused" => s.pts = <<>> /\ log = <<>>

\* C02: lengths stay in their range, first attempt is ds0
LengthInRange == s.ds >= c.dsmin /\ s.ds <= c.dsmax
FirstLength == tries # <<>> => tries[1][1] = c.ds0 /\ tries[1][2] = 1
\* C02: fallback weights only after a failure at the minimum length with the previous weight
FallbackDiscipline ==
  \A i \in 1..Len(tries) :
    tries[i][2] > 1 =>
       /\ i > 1 /\ ~tries[i-1][3] /\ tries[i][1] = c.dsmin /\ tries[i-1][1] = c.dsmin
       /\ tries[i-1][2] = tries[i][2] - 1
\* C02: a failed attempt above the minimum is retried at half length, same weight
RetryDiscipline ==
  \A i \in 1..Len(tries) - 1 :
    (~tries[i][3] /\ tries[i][1] > c.dsmin) =>
       /\ tries[i+1][1] = Max(tries[i][1] \div 2, c.dsmin)
       /\ tries[i+1][2] = tries[i][2]
\* C02: growth is limited
GrowthLimited ==
  \A i \in 1..Len(tries) - 1 :
    tries[i][3] => tries[i+1][1] * c.incD <= Max(tries[i][1] * c.incN, c.dsmin * c.incD)
\* C02: at the end one of the reasons holds, and before it none does
EndHasReason == s.ph \in {"close", "ret", "over"} => s.failed \/ MustStop(c, s)
NeverContinuesPastStop == s.ph = "loop" => ~MustStop(c, s) /\ ~s.failed

RECURSIVE Consec(_)
Consec(q) == IF q = <<>> \/ q[Len(q)][3] THEN 0 ELSE 1 + Consec(SubSeq(q, 1, Len(q) - 1))
\* no unbounded retrying: halvings plus weights
BoundedRetries == Consec(tries) <= 3 + c.nw

Terminates == <>(s.ph \in {"over", "refused"})

\* printing complete environment scripts for replay into the code
Gen == GEN /\ s.ph \in {"over", "refused"} =>
          PrintT(<<"BEH", ToJson([c |-> c, h |-> hist])>>)
=============================================================================
