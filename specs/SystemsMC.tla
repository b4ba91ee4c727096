----------------------------- MODULE SystemsMC -----------------------------
(* Bounded model of the life of a system with four forces of different capabilities:       *)
(* history resets, commits, trial evaluations, frictionless mode and back, starting        *)
(* positions, damping changes and forces added in between.                                 *)
EXTENDS Systems, Json
CONSTANTS DEPTH, GEN
VARIABLES n, ss, C, beh, real, com
vars == <<n, ss, C, beh, real, com>>
I2 == << <<1, 0>>, <<0, 1>> >>
R1 == << <<1, -1>> >>
Con == [kind |-> "fric", Q |-> I2, T |-> I2, hist |-> TRUE, pres |-> TRUE, takes |-> TRUE, mean |-> FALSE, u0 |-> <<0, 0>>,
        el |-> [tan |-> <<[j |-> 1, n |-> 2]>>, nrm |-> <<2>>, kap |-> 4, gap2 |-> 1, m |-> 1, nl |-> 2, sl |-> <<[g |-> 2, lim |-> 0, w |-> 1]>>]]
Jen == [kind |-> "fric", Q |-> R1, T |-> << <<1>>, <<-1>> >>, hist |-> TRUE, pres |-> TRUE, takes |-> FALSE, mean |-> TRUE, u0 |-> <<>>,
        el |-> [tan |-> <<[j |-> 1, n |-> 0]>>, nrm |-> <<>>, kap |-> 0, gap2 |-> 0, m |-> 0, nl |-> 1, sl |-> <<[g |-> 1, lim |-> 2, w |-> 1]>>]]
Lin(h, p, t) == [kind |-> "lin", Q |-> R1, T |-> << <<1>>, <<2>> >>, hist |-> h, pres |-> p, takes |-> t, mean |-> FALSE, u0 |-> <<>>,
                 el |-> [nl |-> 1, k |-> 2, kp |-> 1]]
All == <<Con, Lin(TRUE, TRUE, TRUE), Jen, Lin(FALSE, TRUE, TRUE)>>
Fs == SubSeq(All, 1, n)
Xs == { <<0, 0>>, <<2, 1>>, <<-1, 2>>, <<3, -1>> }
K == << <<3, -1>>, <<-1, 2>> >>
F0 == <<1, -2>>
Stat(fs, st, X) == Static4(K, fs, st, X, F0)
\* real: states of a companion that never enters the frictionless mode but is given the same history when
\* no commit happened in that mode;  com: a commit happened in the frictionless mode
Init == n \in {2, 4} /\ ss = [i \in 1..n |-> FNew(All[i])] /\ C = 0 /\ beh = <<>> /\ real = ss /\ com = FALSE
Log(x) == beh' = Append(beh, x)
DoInit == Log([op |-> "init"]) /\ ss' = SInit(Fs, ss) /\ real' = SInit(Fs, real) /\ UNCHANGED <<n, C, com>>
Commit(X) == /\ Log([op |-> "commit", X |-> X]) /\ ss' = SCommit(Fs, ss, X)
             /\ com' = (com \/ \E i \in 1..n : ss[i].pre)
             /\ real' = (IF \E i \in 1..n : ss[i].pre THEN real ELSE SCommit(Fs, real, X)) /\ UNCHANGED <<n, C>>
Trial(X) == Log([op |-> "trial", X |-> X]) /\ UNCHANGED <<n, ss, C, real, com>>
Pre == Log([op |-> "pre"]) /\ ss' = SPre(Fs, ss, TRUE) /\ UNCHANGED <<n, C, real, com>>
Real == Log([op |-> "real"]) /\ ss' = SPre(Fs, ss, FALSE) /\ UNCHANGED <<n, C, real, com>>
Take(X) == Log([op |-> "take", X |-> X]) /\ ss' = STake(Fs, ss, X) /\ real' = STake(Fs, real, X) /\ UNCHANGED <<n, C, com>>
Damp == Log([op |-> "damp"]) /\ C' = 1 - C /\ UNCHANGED <<n, ss, real, com>>
Aft == Log([op |-> "aft"]) /\ UNCHANGED <<n, ss, C, real, com>>
Add == /\ n < Len(All) /\ Log([op |-> "add"]) /\ n' = n + 1
       /\ ss' = Append(ss, FNew(All[n + 1])) /\ real' = Append(real, FNew(All[n + 1])) /\ UNCHANGED <<C, com>>
Next == /\ Len(beh) < DEPTH
        /\ \/ \E X \in Xs : Commit(X) \/ Trial(X)
           \/ Take(<<2, 1>>) \/ DoInit \/ Pre \/ Real \/ Damp \/ Add \/ Aft
        /\ IF GEN /\ Len(beh') = DEPTH THEN PrintT(<<"BEH", ToJson(beh')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == IF GEN THEN vars ELSE <<n, ss, C, real, com, Len(beh)>>
\* forces without history keep their state, whatever happens
NoOther == \A i \in 1..n : ~Fs[i].hist => ss[i].st = Fresh(Fs[i])
\* all forces that support the mode are in the same mode, except those added later
Mode == \A i, j \in 1..n : (ss[i].pre /\ Fs[j].pres /\ j <= i) => ss[j].pre
\* back to real friction: the system is the one that never left it
Restored == (~com /\ \A i \in 1..n : ~ss[i].pre) =>
               ss = real /\ \A X \in Xs : Stat(Fs, ss, X) = Stat(Fs, real, X)
\* residuals do not depend on the order of the forces and are sums of single-force contributions
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Order == \A X \in Xs : Stat(Fs, ss, X) = Stat(Rev(Fs), Rev(ss), X)
Single == \A X \in Xs : SAdd(Stat(Fs, ss, X), SMul(n - 1, Stat(<<>>, <<>>, X)))
              = SSum(LAMBDA i : Stat(<<Fs[i]>>, <<ss[i]>>, X), n, <<0, 0>>)
\* a reset forgets the history: same residual as a fresh system with the same modes
Reset == LET r == SInit(Fs, ss) IN \A i \in 1..n : r[i].st = Fresh(Fs[i]) /\ r[i].pre = ss[i].pre /\ r[i].u0 = ss[i].u0
\* committing twice at one place is committing once for the friction forces
Twice == \A X \in Xs : LET a == SCommit(Fs, ss, X)  b == SCommit(Fs, a, X) IN
             \A i \in 1..n : Fs[i].kind = "fric" => a[i] = b[i]
=============================================================================
