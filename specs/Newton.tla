------------------------------- MODULE Newton -------------------------------
(* Control flow of the in-house nonlinear solver.                                      *)
(* c : max (allowed iterations), freq (Jacobian cycle), ls (line-search iterations)    *)
(* s : [ph, i, k, nf, nj, conv, out]                                                   *)
(*   ph   "eval" an iteration's residual (and Jacobian) is requested next;             *)
(*        "ls" line search of the current step runs; "done"                            *)
(*   i    iterations finished, k position in the Jacobian cycle (0: evaluate it)       *)
(*   nf, nj  evaluations of residual / Jacobian outside line search                    *)
(*   out  "" while running, else "converged" | "nan" | "limit" | "accepted"            *)
EXTENDS Integers

NStart(c) == [ph |-> "eval", i |-> 0, k |-> 0, nf |-> 0, nj |-> 0, out |-> ""]

WantsJacobian(s) == s.k = 0

\* an iteration's evaluation; nan: undefined values appeared
Evaluated(c, s, nan) ==
  LET s1 == [s EXCEPT !.nf = @ + 1, !.nj = IF s.k = 0 THEN @ + 1 ELSE @]
  IN IF nan THEN [s1 EXCEPT !.ph = "done", !.out = "nan"]
     ELSE [s1 EXCEPT !.ph = IF c.ls > 0 THEN "ls" ELSE "test"]

\* the step was taken; stop, acc: does a stopping / an accepting measure hold now
Tested(c, s, stop, acc) ==
  LET s1 == [s EXCEPT !.i = @ + 1, !.k = (@ + 1) % c.freq]
  IN IF stop THEN [s1 EXCEPT !.ph = "done", !.out = "converged"]
     ELSE IF s1.i >= c.max
          THEN [s1 EXCEPT !.ph = "done", !.out = IF acc THEN "accepted" ELSE "limit"]
          ELSE [s1 EXCEPT !.ph = "eval"]

Success(s) == s.out \in {"converged", "accepted"}
=============================================================================
