---------------------------- MODULE Continuation ----------------------------
(* The continuation run as a protocol between the loop, the nonlinear solver (the    *)
(* environment: it decides which attempts converge, where and after how many         *)
(* evaluations) and the callback.                                                     *)
(*                                                                                    *)
(* c : configuration record                                                           *)
(*   ds0, dsmin, dsmax  step lengths in fixed-point units                             *)
(*   maxsteps, target, incN/incD (largest growth factor), nw (number of weights)      *)
(*   dir (+1/-1), lam0, lam1, back (allowed backtracking), hascb                      *)
(* s : state record                                                                   *)
(*   ph   phase: "init" before the start point; "refused"; "cb0" opening callback due; *)
(*        "loop" next attempt due or stopping; "cb" callback of accepted point due;   *)
(*        "close" closing callback due; "ret" result due; "over"                      *)
(*   ds   length of the next attempt,  wi  index of its weight                        *)
(*   pts  recorded points,  last  parameter value of the last one                     *)
EXTENDS Integers, Sequences

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Start(c) == [ph |-> "init", ds |-> c.ds0, wi |-> 1, pts |-> <<>>, last |-> c.lam0,
             failed |-> FALSE]

\* --- step-length rules
Halve(c, ds) == Max(ds \div 2, c.dsmin)
Grown(c, ds, n) == IF c.target * c.incD < n * c.incN THEN (ds * c.target) \div n
                   ELSE (ds * c.incN) \div c.incD
Clamp(c, ds) == Min(Max(ds, c.dsmin), c.dsmax)

\* --- stopping rule
Reached(c, s)  == c.dir * s.last >= c.dir * c.lam1
TooFar(c, s)   == c.dir * s.last <= c.dir * c.lam0 - c.back
Full(c, s)     == Len(s.pts) >= c.maxsteps
MustStop(c, s) == Reached(c, s) \/ TooFar(c, s) \/ Full(c, s)

AfterLoop(c, s) == IF c.hascb THEN [s EXCEPT !.ph = "close"] ELSE [s EXCEPT !.ph = "ret"]

\* stopping is decided as soon as the previous point has been reported
Settle(c, s) == IF s.ph = "loop" /\ MustStop(c, s) THEN AfterLoop(c, s) ELSE s

\* --- actions, as functions of the state before and the environment's choice
InitOk(c, s, p) ==
    Settle(c, [s EXCEPT !.pts = <<p>>, !.last = c.lam0,
                        !.ph = IF c.hascb THEN "cb0" ELSE "loop"])
InitFail(c, s) == [s EXCEPT !.ph = "refused"]

Opened(c, s) == Settle(c, [s EXCEPT !.ph = "loop"])

Accept(c, s, p, lam, n, dsobs) ==
    Settle(c, [s EXCEPT !.pts = Append(@, p), !.last = lam, !.wi = 1,
                        !.ds = Clamp(c, Grown(c, dsobs, n)),
                        !.ph = IF c.hascb THEN "cb" ELSE "loop"])

\* a failed attempt: shorter step, else next weight, else the run ends
Reject(c, s, dsobs) ==
    IF dsobs > c.dsmin + c.tol THEN [s EXCEPT !.ds = Halve(c, dsobs)]
    ELSE IF s.wi < c.nw THEN [s EXCEPT !.wi = @ + 1, !.ds = dsobs]
    ELSE AfterLoop(c, [s EXCEPT !.failed = TRUE])

Reported(c, s) == Settle(c, [s EXCEPT !.ph = "loop"])
Closed(c, s)   == [s EXCEPT !.ph = "ret"]
Returned(c, s) == [s EXCEPT !.ph = "over"]
=============================================================================
