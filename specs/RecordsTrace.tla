---------------------------- MODULE RecordsTrace ----------------------------
(* Recorded histories of continuation callbacks (P01): the contents of the scratch          *)
(* directory after every operation against the abstract files.                              *)
EXTENDS TraceLib, Records
VARIABLES l, files
Names == {"a.npz", "b.npz", "s.dat", "t.dat", "u.txt"}
Empty == [n \in Names |-> NoFile]
\* header cells of a report
O(o) == "m/s^" \o ToString(o) \o "]"
Rep(s, k) == [i \in 1..k |-> s]
HeadCells(c) ==
  CASE c.kind = "epmc" -> << <<"Amplitude (log)", "Frequency [Hz]", "Damping [Frac Crit]">> >>
    [] c.kind = "hbm" -> << <<"Frequency [Hz]", "Force Scaling [N]", "Recov Amp [" \o O(c.order)>> >>
    [] c.kind = "phase" -> << <<"Frequency [Hz]", "Amplitude [" \o O(c.order), "Force Cosine [N]", "Force Sine [N]", "Recov Amp [" \o O(c.order)>> >>
    [] c.kind = "vprnm" -> << <<"Force Scaling [N]", "Frequency [Hz]">> \o Rep("Recov Amp [" \o O(c.order), Len(c.outs)),
                              <<"", "">> \o [i \in 1..Len(c.outs) |-> "dof=" \o ToString(i - 1) \o ", h=" \o ToString(c.outs[i].g)] >>
    [] c.kind = "vphase" -> << <<"Amp Control [" \o O(c.corder), "Force Cosine [N]", "Force Sine [N]", "Frequency [Hz]">>
                                 \o Rep("Recov Amp [" \o O(c.order), Len(c.outs)),
                               <<"", "", "", "">> \o [i \in 1..Len(c.outs) |-> "dof=" \o ToString(i - 1) \o ", h=" \o ToString(c.outs[i].g)] >>
\* row of a report: U the harmonic displacements, tail the remaining unknowns (eighths; w rad/s)
Amps(c, d, off) == \A i \in 1..Len(c.outs) : IsRoot(d[off + i], AmpSq(c.U, c.w, c.h, c.order, c.outs[i].r, c.outs[i].g))
RowOk(c, d) ==
  CASE c.kind = "epmc" -> Len(d) = 3 /\ IsEighths(d[1], c.a) /\ IsHz(d[2], c.w) /\ IsRatio(d[3], c.xi, 2 * c.w)
    [] c.kind = "hbm" -> Len(d) = 3 /\ IsHz(d[1], c.w) /\ IsEighths(d[2], c.f) /\ Amps(c, d, 2)
    [] c.kind = "phase" -> Len(d) = 5 /\ IsHz(d[1], c.w) /\ IsEighths(d[2], c.a) /\ IsEighths(d[3], c.fc) /\ IsEighths(d[4], c.fs) /\ Amps(c, d, 4)
    [] c.kind = "vprnm" -> Len(d) = 2 + Len(c.outs) /\ IsEighths(d[1], c.f) /\ IsHz(d[2], c.w) /\ Amps(c, d, 2)
    [] c.kind = "vphase" -> Len(d) = 4 + Len(c.outs) /\ IsEighths(d[1], c.a) /\ IsEighths(d[2], c.fc) /\ IsEighths(d[3], c.fs) /\ IsHz(d[4], c.w) /\ Amps(c, d, 4)
\* observed file: npz [X, d] matrices; text: lines with cells s (strings) and numbers n
WhySave(f, o) ==
  IF Len(o.X) # Len(f.rows) \/ Len(o.d) # Len(f.rows) THEN "P01.saved-points-missing-or-repeated"
  ELSE IF \E i \in 1..Len(f.rows) : o.X[i] # f.rows[i].X THEN "P01.saved-point"
  ELSE IF \E i \in 1..Len(f.rows) : o.d[i] # f.rows[i].d THEN "P01.saved-direction" ELSE ""
WhyText(f, o) ==
  LET nh == HeadLines(f.head.kind)
      hc == HeadCells(f.head) IN
  IF ~o.whole THEN "P01.line-unfinished"
  ELSE IF Len(o.lines) # nh + Len(f.rows) THEN "P01.report-rows-missing-or-repeated"
  ELSE IF \E i \in 1..nh : o.lines[i].s # hc[i] THEN "P01.report-header"
  ELSE IF \E i \in 1..Len(f.rows) : ~RowOk(f.rows[i], o.lines[nh + i].n) THEN "P01.report-row"
  ELSE ""
WhyFiles(fs, e) ==
  LET present == {e.files[i].name : i \in 1..Len(e.files)}
      bad == {i \in 1..Len(e.files) : (IF fs[e.files[i].name].kind = "save" THEN WhySave(fs[e.files[i].name], e.files[i])
                                       ELSE WhyText(fs[e.files[i].name], e.files[i])) # ""} IN
  IF present # {n \in Names : fs[n].kind # "none"} THEN "P01.other-files"
  ELSE IF bad = {} THEN ""
  ELSE LET i == CHOOSE j \in bad : TRUE IN
       IF fs[e.files[i].name].kind = "save" THEN WhySave(fs[e.files[i].name], e.files[i]) ELSE WhyText(fs[e.files[i].name], e.files[i])
After(e) == CASE e.op \in {"call", "combine"} -> Calls(files, e.cs)
              [] e.op = "delete" -> Delete(files, e.f)
              [] OTHER -> files
Why(e) == CASE e.op = "begin" -> ""
            [] e.op = "exc" -> e.prop \o ".exception-" \o e.exc
            [] e.op \in {"call", "combine"} ->
                 IF e.argchanged THEN "P01.arguments-changed"
                 ELSE IF e.seen # e.expect THEN "P01.combined-calls"
                 ELSE WhyFiles(After(e), e)
            [] OTHER -> WhyFiles(After(e), e)
Init == l = 1 /\ files = Empty
Next == /\ l <= N
        /\ LET e == Trace[l]
               why == Why(e)
           IN IF why = "" THEN l' = l + 1 /\ files' = (IF e.op = "begin" THEN Empty ELSE After(e))
              ELSE /\ PrintT(<<"REJECT", e.case, l, why>>)
                   /\ l' = NextBegin(l + 1)
                   /\ files' = Empty
Spec == Init /\ [][Next]_<<l, files>>
=============================================================================
