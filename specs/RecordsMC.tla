----------------------------- MODULE RecordsMC -----------------------------
(* Bounded model: runs, restarts onto existing files, deleted files and combinations of     *)
(* callbacks over two archives and two reports.                                             *)
EXTENDS Records, Json, TLC
CONSTANTS DEPTH, GEN
VARIABLES files, log, beh
vars == <<files, log, beh>>
Names == {"a", "b", "s", "t"}
KindOf(n) == IF n \in {"a", "b"} THEN "save" ELSE IF n = "s" THEN "epmc" ELSE "vprnm"
Lists == { <<"a">>, <<"b">>, <<"s">>, <<"t">>, <<"a", "s">>, <<"s", "a", "t">>, <<"t", "t">>, <<"b", "a", "b">> }
Init == files = [n \in Names |-> NoFile] /\ log = <<>> /\ beh = <<>>
P == Len(beh) + 1
Cs(l) == [i \in 1..Len(l) |-> [file |-> l[i], kind |-> KindOf(l[i]), p |-> P]]
DoCall(l) == /\ files' = Calls(files, Cs(l))
             /\ log' = log \o Cs(l)
             /\ beh' = Append(beh, [op |-> "call", l |-> l])
DoRestart == UNCHANGED <<files, log>> /\ beh' = Append(beh, [op |-> "restart"])
DoDelete(n) == /\ files[n].kind # "none"
               /\ files' = Delete(files, n)
               /\ log' = SelectSeq(log, LAMBDA c : c.file # n)
               /\ beh' = Append(beh, [op |-> "delete", f |-> n])
Next == /\ Len(beh) < DEPTH
        /\ (\E l \in Lists : DoCall(l)) \/ DoRestart \/ (\E n \in Names : DoDelete(n))
        /\ IF GEN /\ Len(beh') = DEPTH THEN PrintT(<<"BEH", ToJson(beh')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* every file holds exactly the calls addressed to it since it was created, in call order
Complete == \A n \in Names : files[n].rows = SelectSeq(log, LAMBDA c : c.file = n)
\* one header, written at creation; nothing else but rows
OneHeader == \A n \in Names : Lines(files[n]) = (IF files[n].rows = <<>> THEN 0 ELSE Len(files[n].rows)
               + (IF KindOf(n) = "save" THEN 0 ELSE IF n = "t" THEN 2 ELSE 1))
\* a combination is the same as its members called one by one
Combine == \A l \in Lists : Len(l) > 1 =>
   Calls(files, Cs(l)) = Calls(Calls(files, <<Cs(l)[1]>>), Tail(Cs(l)))
\* append-only, and other files are untouched
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
AppendOnly == [][\A n \in Names : files'[n].kind = "none" \/ IsPrefix(files[n].rows, files'[n].rows)]_vars
\* the number relations, on every value of a small domain
ASSUME \A a \in -40..40, m \in -5100..5100 : IsEighths([m |-> m, k |-> 3], a) => m = 125 * a
ASSUME \A a \in -40..40 : IsEighths([m |-> 125 * a, k |-> 3], a)
ASSUME \A r \in 1000..3000 : IsRoot([m |-> r, k |-> 0], r * r) /\ ~IsRoot([m |-> r + 1, k |-> 0], r * r) /\ ~IsRoot([m |-> r - 1, k |-> 0], r * r)
ASSUME \A w \in 1..100 : \E m \in {(159155 * w + 500) \div 1000} : IsHz([m |-> m, k |-> 3], w) /\ ~IsHz([m |-> m + 3, k |-> 3], w) /\ ~IsHz([m |-> m - 3, k |-> 3], w)
=============================================================================
