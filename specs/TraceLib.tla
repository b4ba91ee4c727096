------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions.  A trace is a sequence of JSON events; every case    *)
(* starts with an event whose op is "begin".  Trace specs define, for a state s and  *)
(* an event e,  Why(s, e)  = "" or the name of the first clause of the action that   *)
(* the event violates, and  Step(s, e) = the successor state of the action.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

BADNUM == 99999999

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == a # BADNUM /\ b # BADNUM /\ Abs(a - b) <= tol
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE NextBegin(_)
NextBegin(l) == IF l > N THEN l
                ELSE IF Trace[l].op = "begin" THEN l ELSE NextBegin(l + 1)

\* first failing clause of a sequence of <<name, holds>> pairs given as functions of 0
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))

MatVec(m, v) == [i \in 1..Len(m) |-> Dot(m[i], v)]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
