----------------------------- MODULE FrictionMC -----------------------------
(* Bounded model of the quasi-static life of a friction element: trial and committed   *)
(* evaluations, reset, frictionless mode and back, on one tangential dof with two       *)
(* sliders (KIND = "iwan") or one tangential and one normal dof (KIND = "contact").     *)
EXTENDS Friction, Json, FiniteSets
CONSTANTS KIND, DEPTH, GEN
VARIABLES st, pre, beh, last, ref
vars == <<st, pre, beh, last, ref>>
El == IF KIND = "iwan"
      THEN [tan |-> <<[j |-> 1, n |-> 0]>>, nrm |-> <<>>, kap |-> 0, gap2 |-> 0, m |-> 0, nl |-> 1,
            sl |-> <<[g |-> 1, lim |-> 1, w |-> 2], [g |-> 1, lim |-> 3, w |-> 1]>>]
      ELSE [tan |-> <<[j |-> 1, n |-> 2]>>, nrm |-> <<2>>, kap |-> 4, gap2 |-> 1, m |-> 1, nl |-> 2,
            sl |-> <<[g |-> 2, lim |-> 0, w |-> 1]>>]
Us == IF KIND = "iwan" THEN {<<x>> : x \in 0..6} ELSE {<<x, y>> : x \in 0..4, y \in 0..2}
\* cfg files cannot hold negative numbers: shifted
U(v) == IF KIND = "iwan" THEN <<v[1] - 3>> ELSE <<v[1] - 2, v[2]>>
F(s, u) == LForce(El, s, u, 1)
Init == st = Zero(El) /\ pre = FALSE /\ beh = <<>> /\ last = [f |-> 0, u |-> U(IF KIND = "iwan" THEN <<3>> ELSE <<2, 0>>)]
        /\ ref = Zero(El)
Log(x) == beh' = Append(beh, x)
Trial(v) == /\ Log([op |-> "trial", u |-> U(v)])
            /\ last' = [f |-> F(NewS(El, st, U(v), pre), U(v)), u |-> U(v)]
            /\ UNCHANGED <<st, pre, ref>>
Commit(v) == /\ Log([op |-> "commit", u |-> U(v)])
             /\ st' = Advance(El, st, U(v), pre)
             /\ last' = [f |-> F(st'.s, U(v)), u |-> U(v)]
             /\ ref' = st'
             /\ UNCHANGED pre
Reset == Log([op |-> "init"]) /\ st' = Zero(El) /\ ref' = Zero(El) /\ UNCHANGED <<pre, last>>
Pre == Log([op |-> "pre"]) /\ pre' = TRUE /\ UNCHANGED <<st, last, ref>>
Real == Log([op |-> "real"]) /\ pre' = FALSE /\ UNCHANGED <<st, last, ref>>
Next == /\ Len(beh) < DEPTH
        /\ \/ \E v \in Us : Trial(v) \/ Commit(v)
           \/ Reset \/ Pre \/ Real
        /\ IF GEN /\ Len(beh') = DEPTH THEN PrintT(<<"BEH", ToJson(beh')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF GEN THEN vars ELSE <<st, pre, last, ref, Len(beh)>>
\* committed state is what the committed evaluations made it
HistoryOnlyCommitted == st = ref
Bounded == \A i \in 1..Len(El.sl) : KIND = "iwan" => st.s[1][i] <= El.sl[i].lim /\ -st.s[1][i] <= El.sl[i].lim
\* friction never exceeds mu N and is zero when separated
Coulomb == KIND = "contact" =>
   LET b == (El.m * Pen(El, last.u[2])) \div 4 IN last.f <= b /\ -last.f <= b
\* committing the displacement of the committed state changes nothing (constant limits)
Idempotent == ~pre /\ KIND = "iwan" => NewS(El, st, <<st.up[1]>>, pre) = st.s
\* monotone: more displacement, no less force
Monotone == ~pre /\ KIND = "iwan" => \A x, y \in -3..3 : x <= y => F(NewS(El, st, <<x>>, pre), <<x>>) <= F(NewS(El, st, <<y>>, pre), <<y>>)
\* return point memory: an excursion within the current reversal closes
ReturnPoint == ~pre /\ KIND = "iwan" =>
   \A x \in -6..6 : LET a == Advance(El, st, <<x>>, FALSE) IN
      \A y \in -6..6 : ((st.up[1] < y /\ y < x) \/ (x < y /\ y < st.up[1])) =>
         Advance(El, Advance(El, a, <<y>>, FALSE), <<x>>, FALSE) = a
\* closed cycles: periodic after one pass, dissipation not negative
Sawtooth(x, y) == << <<x>>, <<y>> >>
SteadyAfterOnePass == KIND = "iwan" =>
  \A x, y \in -4..4 :
     LET du == << <<0>>, <<0>> >>
         a0 == [st |-> st, dst |-> [up |-> <<0>>, s |-> Zero(El).s], tie |-> FALSE, f |-> <<>>, d |-> <<>>]
         a1 == Cycle(El, Sawtooth(x, y), du, 1, a0, FALSE)
         a2 == Cycle(El, Sawtooth(x, y), du, 1, a1, TRUE)
         a3 == Cycle(El, Sawtooth(x, y), du, 1, a2, TRUE)
     IN /\ a2.st = a3.st
        /\ SubSeq(a3.f, 3, 4) = SubSeq(a2.f, 1, 2)
        /\ (a2.f[1][1] - a2.f[2][1]) * (x - y) >= 0
=============================================================================
