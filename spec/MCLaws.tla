------------------------------- MODULE MCLaws -------------------------------
(***************************************************************************)
(* The laws the estimates obey, in exact arithmetic, over every model and  *)
(* data series that can be assembled from a pool of steps.  The machine is *)
(* the library driven one observation at a time (predict, then update);    *)
(* every step picks its parameters, observation and control from the pool, *)
(* so the reachable states are all series of at most MaxT steps, including *)
(* time-varying ones, singular transitions, absent controls, and steps     *)
(* that observe nothing.                                                   *)
(***************************************************************************)
EXTENDS Gauss, Json

CONSTANTS MaxT, Dim, Rich,       \* length, state dimension (1 or 2), size of the pool
          Emit                   \* print the behaviours, for replay on the code?

VARIABLES m, z, u, run           \* model and data so far; what the steps returned
lvars == <<m, z, u, run>>

q(i, j) == RFrac(i, j)
I(i) == RInt(i)
M1(a) == <<<<a>>>>
Dg(a, b) == <<<<a, Zero>>, <<Zero, b>>>>
M2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>

(* Pool for one state component.  All combinations. *)
Pool1 ==
  LET As == IF Rich THEN {I(1), q(-1, 2), I(0), I(2)} ELSE {I(1), q(-1, 2), I(0)}
      Bs == IF Rich THEN {NaN, I(1), q(-2, 1)} ELSE {q(-2, 1)}
      Hs == IF Rich THEN {I(1), I(0), q(-3, 2)} ELSE {I(0), q(-3, 2)}
      Qs == IF Rich THEN {I(0), q(1, 2)} ELSE {I(0), q(1, 2)}
      Rs == IF Rich THEN {q(1, 4), I(1)} ELSE {q(1, 4)}
      Zs == IF Rich THEN {I(0), I(1), I(-2)} ELSE {I(1)}
      Us == {NaN, I(3)}
  IN {[A |-> M1(a), B |-> M1(b), H |-> M1(h), Q |-> M1(qq), R |-> M1(r), z |-> <<zz>>, u |-> <<uu>>] :
        a \in As, b \in Bs, h \in Hs, qq \in Qs, r \in Rs, zz \in Zs, uu \in Us}
Init1 == {[x |-> <<I(1)>>, P |-> M1(I(1))], [x |-> <<I(-2)>>, P |-> M1(I(0))]}

(* Pool for two state components and one or two observed ones. *)
A2 == <<MId(2), M2(I(1), q(1, 2), I(0), I(1)), M2(I(0), I(1), q(-1, 2), q(1, 2)), M2(I(1), I(1), I(1), I(1)),
        M2(I(0), I(0), I(0), I(0))>>
Q2 == <<M2(q(1, 4), Zero, Zero, q(1, 2)), M2(Zero, Zero, Zero, Zero), M2(q(1, 4), q(1, 2), q(1, 2), I(1))>>
B2 == <<M2(I(1), Zero, q(1, 2), I(-1)), M2(NaN, NaN, NaN, NaN)>>
U2 == <<<<I(1), I(2)>>, <<NaN, NaN>>>>
H21 == << <<<<I(1), I(0)>>>>, <<<<I(1), I(-1)>>>>, <<<<I(0), I(0)>>>> >>
R21 == <<M1(I(1)), M1(q(1, 4))>>
H22 == <<MId(2), M2(I(1), I(1), I(1), I(1)), M2(I(0), I(2), I(1), I(0))>>
R22 == <<M2(I(1), q(1, 2), q(1, 2), I(1)), Dg(q(1, 2), I(2))>>
S2(a, b, qq, h, r, zz, uu) == [A |-> A2[a], B |-> B2[b], Q |-> Q2[qq], H |-> h, R |-> r, z |-> zz, u |-> U2[uu]]
PoolA == {S2(1, 1, 1, H21[1], R21[1], <<I(1)>>, 1), S2(2, 1, 2, H21[2], R21[2], <<I(-1)>>, 1),
          S2(3, 2, 1, H21[1], R21[2], <<I(2)>>, 1), S2(4, 1, 3, H21[2], R21[1], <<I(0)>>, 2),
          S2(2, 1, 1, H21[3], R21[1], <<I(5)>>, 1), S2(5, 1, 1, H21[1], R21[1], <<I(1)>>, 2)}
PoolAll == {S2(a, b, qq, H21[h], R21[r], <<zz>>, 1) : a \in 1..5, b \in 1..2, qq \in 1..3, h \in 1..3, r \in 1..2,
                                                       zz \in {I(1), I(-2)}}
PoolB == {S2(1, 1, 1, H22[1], R22[1], <<I(1), I(-1)>>, 1), S2(2, 1, 2, H22[2], R22[2], <<I(1), I(2)>>, 1),
          S2(3, 2, 1, H22[3], R22[1], <<I(0), I(2)>>, 1), S2(4, 1, 3, H22[1], R22[2], <<I(1), I(0)>>, 2)}
Init2 == {[x |-> <<I(0), I(1)>>, P |-> MId(2)], [x |-> <<I(1), I(-1)>>, P |-> M2(I(1), I(1), I(1), I(1))],
          [x |-> <<I(1), I(0)>>, P |-> M2(Zero, Zero, Zero, Zero)]}

CONSTANT Two                     \* number of observed components (Dim = 2)
Pool == IF Dim = 1 THEN Pool1 ELSE IF Two THEN PoolB ELSE IF Rich THEN PoolAll ELSE PoolA
Inits == IF Dim = 1 THEN Init1 ELSE Init2

Init == /\ \E s \in Inits : m = [kind |-> "kf", A |-> <<>>, B |-> <<>>, H |-> <<>>, Q |-> <<>>, R |-> <<>>,
                                 x0 |-> s.x, P0 |-> s.P]
        /\ z = <<>> /\ u = <<>> /\ run = <<>>
T == Len(z)
X(k) == IF k = 0 THEN m.x0 ELSE run[k].x
P(k) == IF k = 0 THEN m.P0 ELSE run[k].P
Extend(s) ==
  /\ m' = [m EXCEPT !.A = Append(@, s.A), !.B = Append(@, s.B), !.H = Append(@, s.H),
                    !.Q = Append(@, s.Q), !.R = Append(@, s.R)]
  /\ z' = Append(z, s.z) /\ u' = Append(u, s.u)
Observe(s) ==
  /\ T < MaxT
  /\ Extend(s)
  /\ LET p == TLCEval(Predict(s.A, X(T), s.B, s.u, P(T), s.Q))
         r == TLCEval(Update(s.H, p.x, p.P, s.z, s.R))
     IN run' = Append(run, [ok |-> TRUE, x |-> r.x, P |-> r.P, K |-> r.K, xp |-> p.x, Pp |-> p.P])
Next == \E s \in Pool : Observe(s)
Spec == Init /\ [][Next]_lvars

----------------------------------------------------------------------------
Xs(r) == [k \in 1..Len(r) |-> r[k].x]
Ps(r) == [k \in 1..Len(r) |-> r[k].P]
Ks(r) == [k \in 1..Len(r) |-> r[k].K]
Sm == TLCEval(SmoothRun(m, z, u))
Smoothable == T > 0 /\ RunOk(Sm) /\ Len(Sm) = T

(* K01, K02: the recursions compute the posterior of the joint Gaussian.   *)
FilterIsPosterior == T > 0 =>
  LET b == TLCEval(Batch(m, z, u, T, T)) IN run[T].x = b.x /\ run[T].P = b.P
SmootherIsPosterior == Smoothable =>
  LET b == TLCEval(BatchBasis(m, z, u, T))
  IN \A k \in 1..T : LET c == TLCEval(BatchAt(m, b, T, k)) IN Sm[k].x = c.x /\ Sm[k].P = c.P
RunMatches == LET r == TLCEval(FilterRun(m, z, u)) IN r = run

(* K03: the prediction is the image of the prior, K04: the gain is optimal *)
(* (any other gain has a larger covariance) and orthogonality holds.       *)
Joseph(K, k) == LET L == TLCEval(MSub(MId(Dim), MMul(K, m.H[k])))
                IN MAdd(MMul(L, MMul(run[k].Pp, MT(L))), MMul(K, MMul(m.R[k], MT(K))))
GainOptimal == \A k \in 1..T :
  LET K == run[k].K
      S == TLCEval(MAdd(MMul(m.H[k], MMul(run[k].Pp, MT(m.H[k]))), m.R[k]))
      D == [i \in 1..Dim |-> [j \in 1..Len(z[k]) |-> q(i + j, 3)]]
  IN /\ MMul(K, S) = MMul(run[k].Pp, MT(m.H[k]))
     /\ Joseph(K, k) = run[k].P
     /\ PSD(MSub(Joseph(MAdd(K, D), k), run[k].P))
     /\ PSD(MSub(Joseph(MSub(K, D), k), run[k].P))
PredictionIsImage == \A k \in 1..T :
  LET c == IF AbsentM(m.B[k]) \/ AbsentV(u[k]) THEN [i \in 1..Dim |-> Zero] ELSE MVec(m.B[k], u[k])
  IN /\ VSub(run[k].xp, MVec(m.A[k], X(k - 1))) = c
     /\ MSub(run[k].Pp, m.Q[k]) = MMul(MMul(m.A[k], P(k - 1)), MT(m.A[k]))

(* K05 *)
ZeroU(v) == IF AbsentV(v) THEN [i \in 1..Len(v) |-> Zero] ELSE v
ZeroB(B) == IF AbsentM(B) THEN [i \in 1..Len(B) |-> [j \in 1..Len(B[i]) |-> Zero]] ELSE B
Gone(v) == [i \in 1..Len(v) |-> NaN]
AbsentIsZero ==
  LET m0 == [m EXCEPT !.B = [k \in 1..T |-> ZeroB(m.B[k])]]
      u0 == [k \in 1..T |-> ZeroU(u[k])]
      un == [k \in 1..T |-> IF k = 1 THEN Gone(u[k]) ELSE u[k]]
      uz == [k \in 1..T |-> IF k = 1 THEN [i \in 1..Len(u[k]) |-> Zero] ELSE u[k]]
  IN T > 0 =>
     /\ FilterRun(m0, z, u0) = run
     /\ FilterRun(m, z, un) = FilterRun(m, z, uz)
     /\ FilterRun(m, z, <<>>) = FilterRun([m EXCEPT !.B = <<>>], z, u)
     /\ FilterRun(m, z, <<>>) = FilterRun(m, z, [k \in 1..T |-> Gone(u[k])])
     /\ Ps(FilterRun(m, z, <<>>)) = Ps(run) /\ Ks(FilterRun(m, z, <<>>)) = Ks(run)
     /\ SmoothRun(m0, z, u0) = Sm
ControlAtOwnStep == \A k \in 1..T : (~AbsentM(m.B[k]) /\ ~AbsentV(u[k])) =>
  LET r == TLCEval(FilterRun(m, z, [u EXCEPT ![k] = Gone(@)]))
  IN /\ \A j \in 1..(k - 1) : r[j] = run[j]
     /\ VSub(run[k].xp, r[k].xp) = MVec(m.B[k], u[k])
     /\ Ps(r) = Ps(run)

(* K08: what later steps add changes nothing before them. *)
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Causal == [][Prefix(run, run') /\ Prefix(FilterRun(m, z, u), FilterRun(m', z', u'))]_lvars

(* K09 *)
Cut(s, k) == SubSeq(s, k + 1, Len(s))
CutB(s, k) == IF s = <<>> THEN <<>> ELSE Cut(s, k)
Rest(k) == [m EXCEPT !.A = Cut(@, k), !.B = CutB(@, k), !.H = Cut(@, k), !.Q = Cut(@, k), !.R = Cut(@, k),
                     !.x0 = X(k), !.P0 = P(k)]
Splittable == \A k \in 0..(T - 1) : FilterRun(Rest(k), Cut(z, k), Cut(u, k)) = Cut(run, k)

(* K10 *)
Sym(A) == A = MT(A)
CovValid ==
  /\ \A k \in 1..T : Sym(run[k].P) /\ PSD(run[k].P) /\ Sym(run[k].Pp) /\ PSD(run[k].Pp)
                     /\ PSD(MSub(run[k].Pp, run[k].P))
  /\ Smoothable => /\ \A k \in 1..T : Sym(Sm[k].P) /\ PSD(Sm[k].P) /\ PSD(MSub(run[k].P, Sm[k].P))
                   /\ Sm[T].x = run[T].x /\ Sm[T].P = run[T].P

(* K11 *)
Two_ == I(2)
Zz(k) == [i \in 1..Len(z[k]) |-> RInt(i - k)]           \* another series
Uz(k) == IF AbsentV(u[k]) THEN u[k] ELSE [i \in 1..Len(u[k]) |-> RInt(k)]
Mix(v, w) == VSub(VScale(Two_, v), w)                     \* weights 2 and -1
Affine ==
  LET z2 == [k \in 1..T |-> Zz(k)]
      u2 == [k \in 1..T |-> Uz(k)]
      x2 == [i \in 1..Dim |-> q(i, 2)]
      zm == [k \in 1..T |-> Mix(z[k], z2[k])]
      um == [k \in 1..T |-> IF AbsentV(u[k]) THEN u[k] ELSE Mix(u[k], u2[k])]
      b == TLCEval(FilterRun([m EXCEPT !.x0 = x2], z2, u2))
      c == TLCEval(FilterRun([m EXCEPT !.x0 = Mix(m.x0, x2)], zm, um))
      sb == TLCEval(SmoothRun([m EXCEPT !.x0 = x2], z2, u2))
      sc == TLCEval(SmoothRun([m EXCEPT !.x0 = Mix(m.x0, x2)], zm, um))
  IN /\ \A k \in 1..T : b[k].P = run[k].P /\ b[k].K = run[k].K /\ c[k].x = Mix(run[k].x, b[k].x)
     /\ Smoothable => \A k \in 1..T : sb[k].P = Sm[k].P /\ sc[k].x = Mix(Sm[k].x, sb[k].x)

(* K12: another state basis S, recombined observations W, controls V.      *)
Bases == IF Dim = 1 THEN {M1(I(-3)), M1(q(1, 1024))} ELSE {M2(I(1), I(2), I(0), I(1)), M2(I(0), I(4), q(-1, 8), I(0))}
ObsBase(r) == IF r = 1 THEN M1(I(-2)) ELSE M2(I(0), I(1), I(2), I(1))
CtlBase(c) == IF c = 1 THEN M1(q(1, 3)) ELSE M2(I(0), I(1), I(1), q(1, 2))
Coordinates == T > 0 => \A S \in Bases :
  LET Si == TLCEval(MInv(S))
      W == ObsBase(Len(z[1]))
      V == CtlBase(Len(u[1]))
      Vi == TLCEval(MInv(V))
      Cg(M) == MMul(S, MMul(M, MT(S)))
      m2 == [m EXCEPT !.A = [k \in 1..T |-> MMul(S, MMul(m.A[k], Si))],
                      !.B = [k \in 1..T |-> IF AbsentM(m.B[k]) THEN m.B[k] ELSE MMul(S, MMul(m.B[k], Vi))],
                      !.H = [k \in 1..T |-> MMul(W, MMul(m.H[k], Si))],
                      !.Q = [k \in 1..T |-> Cg(m.Q[k])],
                      !.R = [k \in 1..T |-> MMul(W, MMul(m.R[k], MT(W)))],
                      !.x0 = MVec(S, m.x0), !.P0 = Cg(m.P0)]
      z2 == [k \in 1..T |-> MVec(W, z[k])]
      u2 == [k \in 1..T |-> IF AbsentV(u[k]) THEN u[k] ELSE MVec(V, u[k])]
      r == TLCEval(FilterRun(m2, z2, u2))
      s == TLCEval(SmoothRun(m2, z2, u2))
  IN /\ \A k \in 1..T : /\ r[k].x = MVec(S, run[k].x) /\ r[k].P = Cg(run[k].P)
                        /\ r[k].K = MMul(MMul(S, run[k].K), MInv(W))
     /\ Smoothable => \A k \in 1..T : s[k].x = MVec(S, Sm[k].x) /\ s[k].P = Cg(Sm[k].P)

(* K13 *)
Cols2(A) == Len(A[1])
Blk(A, B) == [i \in 1..(Len(A) + Len(B)) |->
               IF i <= Len(A) THEN A[i] \o [j \in 1..Cols2(B) |-> Zero] ELSE [j \in 1..Cols2(A) |-> Zero] \o B[i - Len(A)]]
Sequential == \A k \in 1..T : (Len(z[k]) = 2 /\ m.R[k][1][2] = Zero) =>
  LET a == TLCEval(Update(<<m.H[k][1]>>, run[k].xp, run[k].Pp, <<z[k][1]>>, M1(m.R[k][1][1])))
      b == TLCEval(Update(<<m.H[k][2]>>, a.x, a.P, <<z[k][2]>>, M1(m.R[k][2][2])))
  IN b.x = run[k].x /\ b.P = run[k].P
NullRow == [i \in 1..Dim |-> Zero]
Irrelevant ==      \* a component that does not depend on the state
  LET m2 == [m EXCEPT !.H = [k \in 1..T |-> Append(m.H[k], NullRow)], !.R = [k \in 1..T |-> Blk(m.R[k], M1(I(3)))]]
      r == TLCEval(FilterRun(m2, [k \in 1..T |-> Append(z[k], RInt(7 * k))], u))
  IN Xs(r) = Xs(run) /\ Ps(r) = Ps(run)
       /\ \A k \in 1..T : \A i \in 1..Dim : r[k].K[i] = Append(run[k].K[i], Zero)
Averaging ==       \* the same rows twice, with z + d and z - d and twice the noise
  LET dd(k) == [i \in 1..Len(z[k]) |-> RInt(i)]
      m2 == [m EXCEPT !.H = [k \in 1..T |-> m.H[k] \o m.H[k]],
                      !.R = [k \in 1..T |-> Blk(MScale(Two_, m.R[k]), MScale(Two_, m.R[k]))]]
      r == TLCEval(FilterRun(m2, [k \in 1..T |-> VAdd(z[k], dd(k)) \o VSub(z[k], dd(k))], u))
  IN Xs(r) = Xs(run) /\ Ps(r) = Ps(run)
Blocks ==          \* next to an independent scalar random walk
  LET one == M1(I(1))
      m2 == [m EXCEPT !.A = [k \in 1..T |-> Blk(m.A[k], one)], !.H = [k \in 1..T |-> Blk(m.H[k], one)],
                      !.Q = [k \in 1..T |-> Blk(m.Q[k], one)], !.R = [k \in 1..T |-> Blk(m.R[k], one)],
                      !.B = [k \in 1..T |-> IF AbsentM(m.B[k]) THEN Append(m.B[k], Gone(m.B[k][1]))
                                            ELSE Append(m.B[k], [j \in 1..Len(m.B[k][1]) |-> Zero])],
                      !.x0 = Append(m.x0, I(2)), !.P0 = Blk(m.P0, one)]
      r == TLCEval(FilterRun(m2, [k \in 1..T |-> Append(z[k], RInt(k))], u))
  IN \A k \in 1..T : /\ SubSeq(r[k].x, 1, Dim) = run[k].x
                     /\ \A i, j \in 1..Dim : r[k].P[i][j] = run[k].P[i][j]
                     /\ \A i \in 1..Dim : r[k].P[i][Dim + 1] = Zero

(* Behaviours for replay on the code: the longest ones. *)
EmitCases == (Emit /\ T = MaxT) => PrintT("CASE " \o ToJson([m |-> m, z |-> z, u |-> u]))

(* K17: a correction is undefined exactly when the innovation covariance   *)
(* is singular; a run is cut there.                                        *)
UndefinedCut == T > 0 =>
  LET m2 == [m EXCEPT !.R[T] = MScale(Zero, @), !.H[T] = MScale(Zero, @)]
      r == TLCEval(FilterRun(m2, z, u))
  IN Len(r) = T /\ ~r[T].ok /\ SubSeq(r, 1, T - 1) = SubSeq(run, 1, T - 1)
=============================================================================
