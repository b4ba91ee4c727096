------------------------------ MODULE Records ------------------------------
(* Files written by the callbacks of a continuation: one archive of points and directions,  *)
(* and text reports.  A file is absent or a sequence of entries; every call appends exactly *)
(* one row to its own file, after a header if the file was absent.                          *)
EXTENDS Integers, Sequences
NoFile == [kind |-> "none", rows |-> <<>>]
\* one call: kind of writer and everything the row depends on
Append1(f, c) == [kind |-> c.kind, rows |-> Append(f.rows, c), head |-> IF f.kind = "none" THEN c ELSE f.head]
\* files: function from names to files.  A call names its file.
Call(files, c) == [files EXCEPT ![c.file] = Append1(files[c.file], c)]
RECURSIVE Calls(_, _)
\* a combination of callbacks: one after the other, in the listed order
Calls(files, cs) == IF cs = <<>> THEN files ELSE Calls(Call(files, Head(cs)), Tail(cs))
Delete(files, n) == [files EXCEPT ![n] = NoFile]
\* lines of a text report, number of rows of an archive
HeadLines(kind) == IF kind \in {"vprnm", "vphase"} THEN 2 ELSE 1
Lines(f) == IF f.kind = "none" THEN 0 ELSE IF f.kind = "save" THEN Len(f.rows) ELSE HeadLines(f.kind) + Len(f.rows)

\* ------------------------------------------------ documented columns of the reports
\* decimal numbers m * 10^-k; values in units 1/8, frequencies integers (rad/s)
RECURSIVE P10(_)
P10(k) == IF k <= 0 THEN 1 ELSE 10 * P10(k - 1)
RAbs(x) == IF x < 0 THEN -x ELSE x
Precise(d) == d.k >= 3 \/ RAbs(d.m) >= 1000
\* the printed number is a / b to its last digit (a, b > 0 or a = 0; sizes guarded)
IsRatio(d, a, b) == IF a = 0 THEN d.m = 0
                    ELSE /\ Precise(d) /\ d.k \in 0..8
                         /\ RAbs(a) <= 500000000 \div P10(d.k)
                         /\ RAbs(d.m) <= 500000000 \div b
                         /\ 2 * RAbs(d.m * b - a * P10(d.k)) <= b + 1
IsEighths(d, a) == IsRatio(d, a, 8)
\* frequency in Hz of an integer number of rad/s
IsHz(d, w) == d.k \in 3..5 /\ RAbs(d.m) < 1000000 /\ RAbs((1000 * (d.m \div P10(d.k - 3))) - 159155 * w) <= (IF d.k = 3 THEN 505 ELSE 1505) + w \div 10
\* the amplitude whose square is sq; printed with four digits
IsRoot(d, sq) == IF sq = 0 THEN d.m = 0
                 ELSE /\ d.k \in 0..3 /\ d.m \in 1000..9999
                      /\ sq <= 99999999 \div P10(2 * d.k)
                      /\ RAbs(sq * P10(2 * d.k) - d.m * d.m) <= d.m + 1
RECURSIVE RDot(_, _, _)
RDot(r, u, off) == IF r = <<>> THEN 0 ELSE Head(r) * u[off + 1] + RDot(Tail(r), u, off + 1)
\* number of coefficient vectors before harmonic g in the sorted list h
RECURSIVE Before(_, _)
Before(h, g) == IF h = <<>> \/ Head(h) >= g THEN 0 ELSE (IF Head(h) = 0 THEN 1 ELSE 2) + Before(Tail(h), g)
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
\* square of the amplitude of derivative `order' of harmonic g at recovery vector r
AmpSq(U, w, h, order, r, g) ==
  LET n == Len(r)
      b == Before(h, g)
      c == RDot(r, U, b * n)
      s == IF g = 0 THEN 0 ELSE RDot(r, U, (b + 1) * n)
  IN (c * c + s * s) * IPow(g * w, 2 * order)
=============================================================================
