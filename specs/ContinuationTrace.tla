-------------------------- MODULE ContinuationTrace --------------------------
(* Recorded continuation runs checked against the protocol.                            *)
(* FOCUS selects the property whose clauses are enforced; the other property's         *)
(* clauses are not judged and the observed values are adopted.                         *)
(* events: begin (c, settings), init, attempt, cb, ret, exc, end                       *)
EXTENDS Continuation, TraceLib

Focus == IOEnv.FOCUS
On(p) == Focus = p

VARIABLES l, c, s

\* observed length of an attempt under the weight that is due
DsObs(e) == e.ds[s.wi]
\* without judgement (C01 focus) the attempt is attributed to the weight that is due

WhyInit(e) ==
  IF s.ph # "init" THEN "C01.second-start-solve"
  ELSE IF On("C01") /\ ~e.atlam0 THEN "C01.start-not-solved-at-lam0"
  \* every run of one object presents the start problem in the configured scaling
  ELSE IF On("C01") /\ (\E i \in 1..Len(c.ccol) : ~Near(e.ccol[i], c.ccol[i], 1)) THEN "C01.start-not-in-configured-scaling"
  ELSE IF On("C01") /\ (\E i \in 1..Len(c.crow) : ~Near(e.crow[i], c.crow[i], 1)) THEN "C01.start-residual-not-in-configured-scaling"
  ELSE IF On("C02") /\ ~e.settings THEN "C02.solver-settings-not-passed"
  ELSE ""

WhyAttempt(e) ==
  IF s.ph = "cb0" THEN IF On("C01") THEN "C01.opening-callback-missing" ELSE ""
  ELSE IF s.ph = "cb" THEN IF On("C01") THEN "C01.callback-missing" ELSE ""
  ELSE IF s.ph = "refused" THEN IF On("C01") THEN "C01.continued-from-unconverged-start" ELSE ""
  ELSE IF s.ph \in {"close", "ret"} THEN
       IF On("C02") THEN IF s.failed THEN "C02.continued-after-exhausted-attempts"
                         ELSE "C02.continued-past-stop" ELSE ""
  ELSE IF s.ph # "loop" THEN "C02.attempt-out-of-order"
  ELSE IF On("C02") THEN
     IF ~e.settings THEN "C02.solver-settings-not-passed"
     ELSE IF ~Near(DsObs(e), s.ds, c.tol) THEN
        IF Len(s.pts) = 1 /\ s.wi = 1 /\ s.ds = c.ds0 THEN "C02.first-length"
        ELSE IF s.wi > 1 THEN "C02.fallback-order-or-length"
        ELSE "C02.step-length"
     ELSE ""
  ELSE ""

\* in C01 focus any phase confusion caused by step control is skipped by adopting "loop"
Base(e) == IF s.ph = "loop" THEN s ELSE [s EXCEPT !.ph = "loop", !.failed = FALSE]
StepAttempt(e) ==
  LET b == Base(e)
      d == IF On("C02") THEN DsObs(e) ELSE s.ds
  IN IF e.ok THEN Accept(c, b, e.p, e.lam, e.n, d) ELSE Reject(c, b, d)

\* C01 focus: the number of attempts is free, so a closing callback or result is accepted
\* from "loop" as well
AtEnd == s.ph = "close" \/ (s.ph = "loop" /\ On("C01"))
WhyCb(e) ==
  IF ~c.hascb THEN "C01.unexpected-callback"
  ELSE IF On("C02") THEN
     IF s.ph = "loop" /\ e.p = 0 THEN "C02.stopped-early"
     ELSE ""
  ELSE IF s.ph = "cb0" THEN
       IF e.p # s.pts[1] THEN "C01.opening-callback-point"
       ELSE IF ~e.dirnan THEN "C01.opening-callback-direction" ELSE ""
  ELSE IF s.ph = "cb" THEN
       IF e.p # s.pts[Len(s.pts)] THEN "C01.callback-point"
       ELSE IF e.dirnan THEN "C01.callback-direction"
       ELSE IF ~e.dirok THEN "C01.callback-direction-not-of-this-step" ELSE ""
  ELSE IF AtEnd THEN
       IF e.p # 0 THEN "C01.callback-of-unaccepted-point"
       ELSE IF e.dirnan THEN "C01.closing-callback-direction" ELSE ""
  ELSE "C01.callback-out-of-order"

StepCb(e) ==
  IF s.ph = "cb0" THEN Opened(c, s)
  ELSE IF s.ph = "cb" THEN Reported(c, s)
  ELSE IF s.ph = "loop" /\ e.p # 0 THEN s
  ELSE Closed(c, s)

WhyRet(e) ==
  IF On("C02") THEN
     IF s.ph = "refused" THEN ""
     ELSE IF s.ph = "loop" THEN "C02.stopped-early"
     ELSE ""
  ELSE IF s.ph = "refused" THEN "C01.unconverged-start-accepted"
  ELSE IF c.hascb /\ s.ph # "ret" THEN "C01.closing-callback-missing"
  ELSE IF Len(e.ps) # Len(s.pts) THEN "C01.number-of-recorded-points"
  ELSE IF e.ps # s.pts THEN "C01.recorded-points"
  ELSE ""

WhyExc(e) == IF s.ph = "refused" THEN ""
             ELSE IF On("C01") THEN "C01.raised-" \o e.exc ELSE "C02.raised-" \o e.exc

WhyEnd(e) ==
  IF On("C01") THEN
     IF e.cfgchanged THEN "C01.callers-settings-changed"
     ELSE IF e.argchanged THEN "C01.arguments-changed"
     ELSE IF c.silent /\ e.out THEN "C01.output-not-suppressed"
     ELSE IF ~e.same THEN "C01.printing-changes-result"
     ELSE ""
  ELSE ""

Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "init" -> WhyInit(e)
            [] e.op = "attempt" -> WhyAttempt(e)
            [] e.op = "cb" -> WhyCb(e)
            [] e.op = "ret" -> WhyRet(e)
            [] e.op = "exc" -> WhyExc(e)
            [] e.op = "end" -> WhyEnd(e)

StepState(e) ==
  CASE e.op = "begin" -> Start(e.c)
    [] e.op = "init" -> IF e.ok THEN InitOk(c, s, e.p) ELSE InitFail(c, s)
    [] e.op = "attempt" -> StepAttempt(e)
    [] e.op = "cb" -> StepCb(e)
    [] e.op = "ret" -> Returned(c, s)
    [] e.op = "exc" -> Returned(c, s)
    [] e.op = "end" -> s

Init == l = 1 /\ c = <<>> /\ s = <<>>
Next ==
  /\ l <= N
  /\ LET e == Trace[l]
         why == Why(e)
     IN IF why = ""
        THEN /\ l' = l + 1
             /\ c' = IF e.op = "begin" THEN e.c ELSE c
             /\ s' = StepState(e)
        ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
             /\ l' = NextBegin(l + 1)
             /\ UNCHANGED <<c, s>>
Spec == Init /\ [][Next]_<<l, c, s>>
AllRead == TLCGet("stats").diameter >= 1
=============================================================================
