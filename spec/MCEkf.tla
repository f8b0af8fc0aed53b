-------------------------------- MODULE MCEkf --------------------------------
(***************************************************************************)
(* The extended filter over every series that can be assembled from a pool *)
(* of polynomial models, noises, observations and controls.  The machine   *)
(* makes the callback evaluations of the library explicit: a step calls    *)
(* jacobian_A and f, then jacobian_H and h; a backward step calls f and    *)
(* jacobian_A again.  calls is the log of (function, point, control).      *)
(***************************************************************************)
EXTENDS Gauss, Json

CONSTANTS MaxT, Rich, Emit

VARIABLES m, z, u, run, pc, calls, back
evars == <<m, z, u, run, pc, calls, back>>

q(i, j) == RFrac(i, j)
I(i) == RInt(i)
c(i, j, e) == [c |-> q(i, j), e |-> e]
M1(a) == <<<<a>>>>
M2(a, b, d, e) == <<<<a, b>>, <<d, e>>>>

(* Maps of one state component and one control component. *)
F1 == << << <<c(1,1,<<1,0>>), c(1,8,<<2,0>>), c(1,1,<<0,1>>)>> >>,          \* x + x^2/8 + u
         << <<c(1,2,<<1,0>>), c(1,4,<<1,1>>), c(1,1,<<0,0>>)>> >>,          \* x/2 + x u/4 + 1
         << <<c(-1,4,<<3,0>>), c(1,1,<<0,2>>)>> >>,                         \* -x^3/4 + u^2
         << <<c(1,1,<<0,1>>)>> >> >>                                        \* u (forgets the state)
H1 == << << <<c(1,1,<<1>>), c(-1,4,<<2>>)>> >>, << <<c(2,1,<<1>>)>> >>,
         << <<c(1,2,<<2>>), c(1,1,<<0>>)>>, <<c(1,1,<<1>>)>> >> >>          \* two observed components
(* Maps of two state components. *)
F2 == << << <<c(1,1,<<1,0,0>>), c(1,2,<<0,1,0>>)>>, <<c(1,1,<<0,1,0>>), c(-1,4,<<1,1,0>>), c(1,1,<<0,0,1>>)>> >>,
         << <<c(1,2,<<1,0,1>>), c(1,4,<<0,2,0>>)>>, <<c(1,1,<<1,0,0>>)>> >> >>
H2 == << << <<c(1,1,<<1,0>>), c(1,4,<<1,1>>)>> >>, << <<c(1,2,<<2,0>>)>>, <<c(1,1,<<0,1>>), c(-1,2,<<1,0>>)>> >> >>
Models == {[kind |-> "ekf", f |-> F1[i], h |-> H1[j], Q |-> <<>>, R |-> <<>>, x0 |-> <<x>>, P0 |-> M1(p)] :
             i \in 1..Len(F1), j \in 1..Len(H1), x \in IF Rich THEN {q(1, 2), I(-1), I(0)} ELSE {q(1, 2)},
             p \in IF Rich THEN {I(1), I(0)} ELSE {I(1)}}
     \cup {[kind |-> "ekf", f |-> F2[i], h |-> H2[j], Q |-> <<>>, R |-> <<>>, x0 |-> <<I(1), q(-1, 2)>>,
            P0 |-> M2(I(1), q(1, 2), q(1, 2), I(1))] : i \in 1..Len(F2), j \in 1..Len(H2)}

N == Len(m.x0)
O == Len(m.h)
Qs == IF N = 1 THEN {M1(q(1, 4)), M1(I(0))} ELSE {M2(q(1, 4), Zero, Zero, q(1, 2))}
Rs == IF O = 1 THEN {M1(I(1)), M1(q(1, 4))} ELSE {M2(I(1), q(1, 4), q(1, 4), q(1, 2))}
Zs == IF O = 1 THEN {<<I(1)>>, <<q(-1, 2)>>} ELSE {<<I(1), q(1, 2)>>}
Us == {<<NaN>>, <<q(1, 2)>>}

Init == /\ m \in Models
        /\ z = <<>> /\ u = <<>> /\ run = <<>> /\ pc = <<>> /\ calls = <<>> /\ back = <<>>
T == Len(z)
X(k) == IF k = 0 THEN m.x0 ELSE run[k].x
P(k) == IF k = 0 THEN m.P0 ELSE run[k].P

(* a step: the time update, then the measurement update *)
Predicted == \E qq \in Qs, uu \in Us :
  /\ pc = <<>> /\ back = <<>> /\ T < MaxT
  /\ LET y == Arg(X(T), uu)
         J == TLCEval(MapJac(m.f, y, N))
         p == [x |-> MapVal(m.f, y), P |-> MAdd(MMul(J, MMul(P(T), MT(J))), qq)]
     IN pc' = <<[p |-> p, J |-> J]>>
  /\ m' = [m EXCEPT !.Q = Append(@, qq)]
  /\ u' = Append(u, uu)
  /\ calls' = calls \o << [fn |-> "JA", x |-> X(T), u |-> uu], [fn |-> "f", x |-> X(T), u |-> uu] >>
  /\ UNCHANGED <<z, run, back>>
Corrected == \E rr \in Rs, zz \in Zs :
  /\ pc # <<>>
  /\ LET p == pc[1].p
         Hk == TLCEval(MapJac(m.h, p.x, N))
         r == TLCEval(Correct(Hk, p.x, p.P, zz, MapVal(m.h, p.x), rr))
     IN run' = Append(run, [ok |-> r.ok, x |-> r.x, P |-> r.P, K |-> r.K, xp |-> p.x, Pp |-> p.P])
  /\ m' = [m EXCEPT !.R = Append(@, rr)]
  /\ z' = Append(z, zz)
  /\ calls' = calls \o << [fn |-> "JH", x |-> pc[1].p.x, u |-> <<>>], [fn |-> "h", x |-> pc[1].p.x, u |-> <<>>] >>
  /\ pc' = <<>>
  /\ UNCHANGED <<u, back>>
(* the backward pass *)
Turn == /\ pc = <<>> /\ back = <<>> /\ T > 0
        /\ back' = << [ok |-> TRUE, x |-> X(T), P |-> P(T)] >>
        /\ UNCHANGED <<m, z, u, run, pc, calls>>
BackStep ==
  LET k == T - Len(back)
      y == Arg(X(k), u[k + 1])
      J == TLCEval(MapJac(m.f, y, N))
      s == TLCEval(RtsStep(J, X(k), P(k), MapVal(m.f, y), MAdd(MMul(J, MMul(P(k), MT(J))), m.Q[k + 1]),
                           back[1].x, back[1].P))
  IN /\ back # <<>> /\ k >= 1 /\ back[1].ok
     /\ back' = (IF s.ok THEN <<s>> ELSE << [ok |-> FALSE] >>) \o back
     /\ calls' = calls \o << [fn |-> "JA", x |-> X(k), u |-> u[k + 1]], [fn |-> "f", x |-> X(k), u |-> u[k + 1]] >>
     /\ UNCHANGED <<m, z, u, run, pc>>
Next == Predicted \/ Corrected \/ Turn \/ BackStep
Spec == Init /\ [][Next]_evars
Ready == pc = <<>>

----------------------------------------------------------------------------
(* E04 *)
Allowed(e) == IF e.fn \in {"f", "JA"} THEN \E k \in 0..(Len(u) - 1) : e.x = X(k) /\ e.u = u[k + 1]
              ELSE \E k \in 1..T : e.x = run[k].xp
CallPoints == Ready => \A j \in 1..Len(calls) : Allowed(calls[j])

EmitCases == (Emit /\ Ready /\ T = MaxT /\ back = <<>>) =>
               PrintT("CASE " \o ToJson([m |-> m, z |-> z, u |-> u]))

(* E01, E02: the machine's own steps are the recursions of Gauss.tla.      *)
RunMatches == (Ready /\ T > 0) => FilterRun(m, z, u) = run
BackMatches == (Len(back) = T /\ T > 0 /\ back[1].ok) =>
  LET s == TLCEval(SmoothRun(m, z, u)) IN \A k \in 1..T : s[k].x = back[k].x /\ s[k].P = back[k].P

(* Jacobians are derivatives: Richardson's formula is exact up to degree 4.*)
Shift(y, j, d) == [y EXCEPT ![j] = RAdd(@, d)]
Diff(F, y, j) ==
  LET D(d) == VSub(MapVal(F, Shift(y, j, d)), MapVal(F, Shift(y, j, RNeg(d))))
  IN VScale(q(1, 12), VSub(VScale(I(8), D(I(1))), D(I(2))))
IsJac(J, F, y) == \A j \in 1..Len(J[1]) : [i \in 1..Len(F) |-> J[i][j]] = Diff(F, y, j)
JacobiansRight == (Ready /\ T > 0) =>
  /\ LET y == X(T - 1) \o (IF AbsentV(u[T]) THEN <<Zero>> ELSE u[T])
     IN IsJac(TransJac(m, u, T, X(T - 1)), m.f, y)
  /\ IsJac(ObsJac(m, T, run[T].xp), m.h, run[T].xp)

(* The estimates are those of the linear model that is tangent to f at the *)
(* filtered means and to h at the predicted ones (E03 when f, h are affine)*)
Tangent ==
  [kind |-> "kf",
   A |-> [k \in 1..T |-> TransJac(m, u, k, X(k - 1))],
   B |-> [k \in 1..T |-> LET d == VSub(run[k].xp, MVec(TransJac(m, u, k, X(k - 1)), X(k - 1)))
                         IN [i \in 1..N |-> <<d[i]>>]],
   H |-> [k \in 1..T |-> ObsJac(m, k, run[k].xp)], Q |-> SubSeq(m.Q, 1, T), R |-> m.R, x0 |-> m.x0, P0 |-> m.P0]
TangentZ == [k \in 1..T |-> VAdd(VSub(z[k], MapVal(m.h, run[k].xp)), MVec(ObsJac(m, k, run[k].xp), run[k].xp))]
Ones == [k \in 1..T |-> <<I(1)>>]
IsTangent == (Ready /\ T > 0) => FilterRun(Tangent, TangentZ, Ones) = run
BackIsTangent == (Len(back) = T /\ T > 0 /\ back[1].ok) =>
  LET b == TLCEval(BatchBasis(Tangent, TangentZ, Ones, T))
  IN \A k \in 1..T : LET g == TLCEval(BatchAt(Tangent, b, T, k)) IN back[k].x = g.x /\ back[k].P = g.P
(* Both passes keep covariances valid. *)
CovValid == Ready => /\ \A k \in 1..T : run[k].P = MT(run[k].P) /\ PSD(run[k].P) /\ PSD(MSub(run[k].Pp, run[k].P))
                     /\ \A k \in 1..Len(back) : back[k].ok => back[k].P = MT(back[k].P) /\ PSD(back[k].P)
(* K08, K09 for the extended filter *)
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Causal == [][Prefix(run, run') /\ Prefix(calls, calls')]_evars
Cut(s, k) == SubSeq(s, k + 1, Len(s))
Splittable == (Ready /\ back = <<>>) => \A k \in 0..(T - 1) :
  FilterRun([m EXCEPT !.Q = Cut(@, k), !.R = Cut(@, k), !.x0 = X(k), !.P0 = P(k)], Cut(z, k), Cut(u, k)) = Cut(run, k)
(* K05: an absent control is a zero control. *)
ZeroU(v) == IF AbsentV(v) THEN <<Zero>> ELSE v
AbsentIsZero == (Ready /\ T > 0) => FilterRun(m, z, [k \in 1..T |-> ZeroU(u[k])]) = run
=============================================================================
