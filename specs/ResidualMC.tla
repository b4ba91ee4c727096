----------------------------- MODULE ResidualMC -----------------------------
(* Consistency of the residual family on small systems: a solution history walks through   *)
(* the lattice of unknowns, one coordinate or the load at a time; at every point the       *)
(* members of the family agree where their definitions coincide and the derivatives taken  *)
(* by differences are the analytic ones.                                                   *)
EXTENDS Residual
CONSTANTS B
VARIABLES S, h, x
Forces == { <<>>, << [lin |-> << <<1, 2, 2>>, <<2, 1, -1>> >>, quad |-> << <<1, 1, 1>>, <<2, 2, -1>> >>, b |-> <<1, -1, 2, 0, 1>>,
                      cn |-> 0, ct |-> 0, ch |-> 1] >> }
Sys == { [n |-> 1, M |-> << <<m>> >>, C |-> << <<c>> >>, K |-> << <<k>> >>, forces |-> f] : m \in {1, 2}, c \in {0, 1}, k \in {3}, f \in Forces }
       \cup { [n |-> 2, M |-> << <<2, 1>>, <<1, 1>> >>, C |-> << <<1, 0>>, <<1, 1>> >>, K |-> << <<3, -1>>, <<-1, 2>> >>, forces |-> <<>>] }
NU == S.n * NhcOf(h)
Fl == [i \in 1..NU |-> ((i * 2) % 5) - 1]
Q0 == <<128, 7>>
P == [Fl |-> Fl, q |-> Q0, w |-> 2, recov |-> [i \in 1..S.n |-> i], amp |-> 1, order |-> 2]
Init == /\ S \in Sys
        /\ h \in {<<1>>, <<0, 1>>, <<1, 2>>}
        /\ x = [i \in 1..(NU + 1) |-> IF i = NU + 1 THEN 2 ELSE IF i = 1 THEN 1 ELSE 0]
Next == \E i \in 1..Len(x), d \in {-1, 1} : /\ x[i] + d \in (-B)..3
                                            /\ x' = [x EXCEPT ![i] = @ + d] /\ UNCHANGED <<S, h>>
Spec == Init /\ [][Next]_<<S, h, x>>
Small == \A i \in 1..(Len(x) - 1) : x[i] \in {-1, 0, 1}
Few == HSum(LAMBDA i : HAbs(x[i]), Len(x) - 1) <= 2 /\ Small
U == Cut(x, NU)
Same(a, b) == \A i \in 1..NU : a[i] = b[i]
\* differences of the residual are the analytic stiffness and law derivatives
RECURSIVE TD(_, _, _, _)
TD(ts, i, j, sq) == IF ts = <<>> THEN 0 ELSE (IF Head(ts)[1] = i /\ Head(ts)[2] = j
                      THEN Head(ts)[3] * (IF sq THEN 2 * U[j] ELSE 1) ELSE 0) + TD(Tail(ts), i, j, sq)
LD(i, j) == HSum(LAMBDA f : TD(S.forces[f].lin, i, j, FALSE) + TD(S.forces[f].quad, i, j, TRUE), Len(S.forces))
Valid == \A f \in 1..Len(S.forces) : \A i \in 1..Len(S.forces[f].lin) : S.forces[f].lin[i][1] <= NU /\ S.forces[f].lin[i][2] <= NU
DerivOk == LET L == Layout(h)  w == x[NU + 1] IN
  /\ \A j \in 1..NU : LET c == Col("hbm", S, h, P, x, j) IN
       \A i \in 1..NU : c[i] = StiffEntry(L, RowOf(i, S.n), RowOf(j, S.n), S.M[DofOf(i, S.n)][DofOf(j, S.n)],
                                          S.C[DofOf(i, S.n)][DofOf(j, S.n)], S.K[DofOf(i, S.n)][DofOf(j, S.n)], w) + LD(i, j)
  /\ LET c == Col("hbm", S, h, P, x, NU + 1) IN
       \A i \in 1..NU : c[i] = HSum(LAMBDA j : U[j] * StiffDw(L, RowOf(i, S.n), RowOf(j, S.n), S.M[DofOf(i, S.n)][DofOf(j, S.n)],
                                          S.C[DofOf(i, S.n)][DofOf(j, S.n)], w), NU)
                               + HSum(LAMBDA f : S.forces[f].b[i], Len(S.forces))
\* full load equals the plain residual; static rows never see the load; the load enters linearly
LoadOk == LET r(s) == Res("dFl", S, h, [P EXCEPT !.w = x[NU + 1]], U \o <<s>>)  r1 == r(1)  r3 == r(3) IN
  /\ Same(r1, Res("hbm", S, h, P, x))
  /\ \A i \in 1..NU : r3[i] = (IF i <= Mean(S, h) THEN r1[i] ELSE r1[i] - 2 * Fl[i])
\* controlled residuals carry the harmonic balance of the same force
ControlOk ==
  LET w == x[NU + 1]
      a == Res("amp", S, h, P, U \o <<1, w>>)
      c == Res("ampphase", S, h, P, U \o <<1, 0, w>>)
      d == Res("dA", S, h, [P EXCEPT !.w = w], U \o <<1, 0, P.amp>>)
      F1 == [i \in 1..NU |-> IF i > Mean(S, h) + S.n THEN 0 ELSE Fl[i]]
  IN /\ Same(a, Res("hbm", S, h, P, x)) /\ c = d
     /\ Same(c, Res("hbm", S, h, [P EXCEPT !.Fl = F1], x))
     \* zero phase and amplitude conditions imply the amplitude condition
     /\ (c[NU + 1] = 0 /\ c[NU + 2] = 0) => a[NU + 1] = 0
\* nonlinear mode at unit amplitude without self excitation: free response
EpmcOk == LET w == x[NU + 1]
              e == Res("epmc", S, h, P, U \o <<w, 0, 1>>)
          IN Same(e, Res("hbm", S, h, [P EXCEPT !.Fl = Scaled(S, h, Fl, 0)], x))
\* prescribing coordinates leaves the rows of the free ones
BaseOk == S.n = 1 \/ h # <<0, 1>> \/
  LET mask == [i \in 1..NU |-> (i % 2) = 0]
      b == Res("base", S, h, [flag |-> <<FALSE, TRUE>>, Ub |-> Pick(U, mask), q |-> Q0],
               Pick(U, [i \in 1..NU |-> ~mask[i]]) \o <<x[NU + 1]>>)
      f == Res("hbm", S, h, [P EXCEPT !.Fl = [i \in 1..NU |-> 0]], x)
  IN b = Pick(f, [i \in 1..NU |-> ~mask[i]])
Inv == Few => (Valid => (DerivOk /\ LoadOk /\ ControlOk /\ EpmcOk)) /\ BaseOk
=============================================================================
