----------------------------- MODULE LineSearch -----------------------------
(* Bisection along a step.  The environment supplies the projected residual G at the   *)
(* fractions that are evaluated; fractions are integers k meaning k / 2^c.iters.       *)
(* b : [ph, lo, hi, glo, ghi, g0, it, n, out]                                          *)
(*   ph  "full" (fraction 1 is to be evaluated), "mid", "done"                         *)
(*   out fraction returned (when done)                                                 *)
EXTENDS Integers

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LAbs(x) == IF x < 0 THEN -x ELSE x
LSgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* |g| < tol * |g0|, tol = c.tn / c.td
Small(c, g, g0) == LAbs(g) * c.td < c.tn * LAbs(g0)

Begin(c, g0) == [ph |-> "full", lo |-> 0, hi |-> Pow2(c.iters), glo |-> g0, ghi |-> 0,
                 g0 |-> g0, it |-> 0, n |-> 0, out |-> 0]

\* fraction that is evaluated next
Probe(c, b) == IF b.ph = "full" THEN Pow2(c.iters) ELSE (b.lo + b.hi) \div 2

Finish(c, b) ==
  LET pick == IF c.same THEN b.lo
              ELSE IF LAbs(b.glo) < LAbs(b.ghi) THEN b.lo ELSE b.hi
      \* some step must be made
      out == IF pick = 0 THEN b.hi ELSE pick
  IN [b EXCEPT !.ph = "done", !.out = out]

ProbeFull(c, b, g) ==
  LET b1 == [b EXCEPT !.ghi = g, !.n = @ + 1, !.ph = "mid"]
  IN IF LSgn(g) * LSgn(b.g0) > 0 THEN [b1 EXCEPT !.ph = "done", !.out = Pow2(c.iters)]
     ELSE IF ~c.same /\ Small(c, g, b.g0) THEN [b1 EXCEPT !.ph = "done", !.out = Pow2(c.iters)]
     ELSE b1

ProbeMid(c, b, g) ==
  LET m  == Probe(c, b)
      b1 == IF LSgn(g) * LSgn(b.glo) < 0
            THEN [b EXCEPT !.hi = m, !.ghi = g, !.n = @ + 1, !.it = @ + 1]
            ELSE [b EXCEPT !.lo = m, !.glo = g, !.n = @ + 1, !.it = @ + 1]
      tolmet == IF c.same THEN Small(c, b1.glo, b.g0) ELSE Small(c, g, b.g0)
  IN IF tolmet \/ b1.it = c.iters THEN Finish(c, b1) ELSE b1

Eval(c, b, g) == IF b.ph = "full" THEN ProbeFull(c, b, g) ELSE ProbeMid(c, b, g)
=============================================================================
