--------------------------- MODULE RoughContactMC ---------------------------
(* Bounded model of the quasi-static life of the rough-contact element: trial and       *)
(* committed evaluations, reset, frictionless mode; with the memory of the largest       *)
(* approach, abstracted to which of the two curves (first loading / unloading from the   *)
(* largest approach) an evaluation lies on.                                              *)
EXTENDS RoughContact, Json
CONSTANTS DEPTH, GEN
VARIABLES st, um, pre, beh, last, ref
vars == <<st, um, pre, beh, last, ref>>
El == [gaps |-> <<0, 15>>, w |-> <<1, 2>>, m |-> 2]
Us == {<<x, n>> : x \in 0..4, n \in {0, 2, 5, 17}}    \* shifted: x - 2, n - 1
U(v) == <<v[1] - 2, 0, v[2] - 1>>
Init == st = RZero(El) /\ um = 0 /\ pre = FALSE /\ beh = <<>> /\ last = [f |-> <<0, 0, 0>>, u |-> <<0, 0, 0>>, curve |-> "none"]
        /\ ref = <<RZero(El), 0>>
Eval(u) == [f |-> RForce(El, RNew(El, st, u, pre), u), u |-> u, curve |-> IF u[3] >= um THEN "loading" ELSE "unloading"]
Trial(v) == /\ beh' = Append(beh, [op |-> "trial", u |-> U(v)]) /\ last' = Eval(U(v)) /\ UNCHANGED <<st, um, pre, ref>>
Commit(v) == /\ beh' = Append(beh, [op |-> "commit", u |-> U(v)])
             /\ last' = Eval(U(v))
             /\ st' = RAdvance(El, st, U(v), pre)
             /\ um' = IF U(v)[3] > um THEN U(v)[3] ELSE um
             /\ ref' = <<st', um'>> /\ UNCHANGED pre
Reset == beh' = Append(beh, [op |-> "init"]) /\ st' = RZero(El) /\ um' = 0 /\ ref' = <<RZero(El), 0>> /\ UNCHANGED <<pre, last>>
Pre == beh' = Append(beh, [op |-> "pre"]) /\ pre' = TRUE /\ UNCHANGED <<st, um, last, ref>>
Real == beh' = Append(beh, [op |-> "real"]) /\ pre' = FALSE /\ UNCHANGED <<st, um, last, ref>>
Next == /\ Len(beh) < DEPTH
        /\ \/ \E v \in Us : Trial(v) \/ Commit(v)
           \/ Reset \/ Pre \/ Real
        /\ IF GEN /\ Len(beh') = DEPTH THEN PrintT(<<"BEH", ToJson(beh')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF GEN THEN vars ELSE <<st, um, pre, last, ref, Len(beh)>>
HistoryOnlyCommitted == <<st, um>> = ref
Coulomb == 4 * RAbs(last.f[1]) <= El.m * last.f[3] /\ 4 * RAbs(last.f[2]) <= El.m * last.f[3]
Separated == last.u[3] <= 0 => last.f = <<0, 0, 0>>
Frictionless == pre => RForce(El, RNew(El, st, last.u, TRUE), last.u)[1] = 0
Approach == [][um' >= um \/ beh'[Len(beh')].op = "init"]_vars
\* committing the same position again changes nothing
Idempotent == LET u == <<st.up[1], st.up[2], last.u[3]>> IN
   ~pre => RNew(El, [up |-> st.up, f |-> RNew(El, st, u, FALSE)], u, FALSE) = RNew(El, st, u, FALSE)
=============================================================================
