------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* The mathematics of kalmankit in exact arithmetic: one operator per      *)
(* step of the library's recursions, and, independently of them, the       *)
(* conditional distribution computed in one block from the joint Gaussian  *)
(* of all states and observations ("Batch").                               *)
(*                                                                         *)
(* A linear model is a record                                              *)
(*   [kind |-> "kf", A, B, H, Q, R, x0, P0]      per-step sequences, B may *)
(*                                                be << >> (no control)    *)
(* and a nonlinear one                                                     *)
(*   [kind |-> "ekf", f, h, Q, R, x0, P0]        f, h polynomial maps      *)
(*   [kind |-> "tab", fx, JA, hx, JH, Q, R, x0, P0]  values of f, h and of *)
(*        their Jacobians tabulated per step by the environment            *)
(* z is a sequence of observation vectors and u a sequence of control      *)
(* vectors, or << >> when the run has no control.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, LinAlg

----------------------------------------------------------------------------
(* Absence of control: no matrix/vector at all, or nothing but NaN.        *)
AbsentV(v) == \A i \in 1..Len(v) : ~RFin(v[i])
AbsentM(M) == \A i \in 1..Len(M) : AbsentV(M[i])

----------------------------------------------------------------------------
(* Single steps *)
Predict(A, x, B, u, P, Q) ==
  [x |-> IF AbsentM(B) \/ AbsentV(u) THEN MVec(A, x)
         ELSE VAdd(MVec(A, x), MVec(B, u)),
   P |-> MAdd(MMul(A, MMul(P, MT(A))), Q)]

Correct(H, x, P, z, hx, R) ==
  LET S  == TLCEval(MAdd(MMul(H, MMul(P, MT(H))), R))
      Si == TLCEval(MInv(S))
      K  == TLCEval(MMul(MMul(P, MT(H)), Si))
  IN IF Si = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, K |-> K,
           x |-> VAdd(x, MVec(K, VSub(z, hx))),
           P |-> MMul(MSub(MId(Len(x)), MMul(K, H)), P)]
Update(H, x, P, z, R) == Correct(H, x, P, z, MVec(H, x), R)

RtsStep(A, x, P, xa, Pa, xs, Ps) ==
  LET Pi == TLCEval(MInv(Pa))
      G  == TLCEval(MMul(MMul(P, MT(A)), Pi))
  IN IF Pi = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, G |-> G,
           x |-> VAdd(x, MVec(G, VSub(xs, xa))),
           P |-> MAdd(P, MMul(G, MMul(MSub(Ps, Pa), MT(G))))]

----------------------------------------------------------------------------
(* Steps of a run of model m; k is the index of the step, 1-based.         *)
Ctl(m, u, k) == IF u = <<>> THEN <<>> ELSE u[k]
Arg(x, uk)   == IF AbsentV(uk) THEN x ELSE x \o uk
BAt(m, k)    == IF m.B = <<>> THEN <<>> ELSE m.B[k]

TransJac(m, u, k, x) ==
  IF m.kind = "kf" THEN m.A[k]
  ELSE IF m.kind = "ekf" THEN MapJac(m.f, Arg(x, Ctl(m, u, k)), Len(x))
  ELSE m.JA[k]

StepPredict(m, u, k, x, P) ==
  IF m.kind = "kf" THEN Predict(m.A[k], x, BAt(m, k), Ctl(m, u, k), P, m.Q[k])
  ELSE LET J == TransJac(m, u, k, x)
       IN [x |-> IF m.kind = "ekf" THEN MapVal(m.f, Arg(x, Ctl(m, u, k))) ELSE m.fx[k],
           P |-> MAdd(MMul(J, MMul(P, MT(J))), m.Q[k])]

ObsJac(m, k, xp) ==
  IF m.kind = "kf" THEN m.H[k]
  ELSE IF m.kind = "ekf" THEN MapJac(m.h, xp, Len(xp)) ELSE m.JH[k]
ObsVal(m, k, xp) ==
  IF m.kind = "kf" THEN MVec(m.H[k], xp)
  ELSE IF m.kind = "ekf" THEN MapVal(m.h, xp) ELSE m.hx[k]

StepUpdate(m, z, k, xp, Pp) == Correct(ObsJac(m, k, xp), xp, Pp, z[k], ObsVal(m, k, xp), m.R[k])

StepBack(m, u, k, x, P, xs, Ps) ==       \* from step k+1 back to step k
  LET a == TLCEval(StepPredict(m, u, k + 1, x, P))
  IN RtsStep(TransJac(m, u, k + 1, x), x, P, a.x, a.P, xs, Ps)

----------------------------------------------------------------------------
(* Whole runs *)
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(m, z, u, k, x, P) ==          \* sequence of per-step records, cut at a failure
  IF k > Len(z) THEN <<>>
  ELSE LET p == TLCEval(StepPredict(m, u, k, x, P))
           c == TLCEval(StepUpdate(m, z, k, p.x, p.P))
       IN IF ~c.ok THEN <<c>>
          ELSE <<[ok |-> TRUE, x |-> c.x, P |-> c.P, K |-> c.K, xp |-> p.x, Pp |-> p.P]>>
                 \o RunFrom(m, z, u, k + 1, c.x, c.P)
FilterRun(m, z, u) == TLCEval(RunFrom(m, z, u, 1, m.x0, m.P0))
RunOk(run) == \A k \in 1..Len(run) : run[k].ok

RECURSIVE BackFrom(_, _, _, _, _)
BackFrom(m, u, run, k, acc) ==        \* acc: smoothed records k+1..T
  IF k = 0 THEN acc
  ELSE LET s == TLCEval(StepBack(m, u, k, run[k].x, run[k].P, acc[1].x, acc[1].P))
       IN IF ~s.ok THEN <<s>> ELSE BackFrom(m, u, run, k - 1, <<s>> \o acc)
SmoothRun(m, z, u) ==
  LET run == FilterRun(m, z, u)
  IN IF ~RunOk(run) \/ run = <<>> THEN run
     ELSE TLCEval(BackFrom(m, u, run, Len(run) - 1,
            <<[ok |-> TRUE, x |-> run[Len(run)].x, P |-> run[Len(run)].P]>>))

----------------------------------------------------------------------------
(* The joint Gaussian of a linear model, without any recursion on data.    *)
RECURSIVE PriorSeq(_, _, _, _, _, _)
PriorSeq(m, u, k, T, x, P) ==         \* means and covariances of x_1..x_T before any data
  IF k > T THEN <<>>
  ELSE LET p == TLCEval(StepPredict(m, u, k, x, P))
       IN <<p>> \o PriorSeq(m, u, k + 1, T, p.x, p.P)
RECURSIVE Trans(_, _, _)
Trans(m, j, i) ==                     \* transition from step i to step j >= i
  IF j = i THEN MId(Len(m.x0)) ELSE TLCEval(MMul(m.A[j], Trans(m, j - 1, i)))
CrossCov(m, pr, j, i) ==              \* Cov(x_j, x_i)
  IF j >= i THEN MMul(Trans(m, j, i), pr[i].P)
            ELSE MMul(pr[j].P, MT(Trans(m, i, j)))

RECURSIVE HStack(_)
HStack(bs) == IF Len(bs) = 1 THEN bs[1]
              ELSE LET r == HStack(Tail(bs))
                   IN TLCEval([i \in 1..Len(bs[1]) |-> bs[1][i] \o r[i]])
RECURSIVE VStack(_)
VStack(bs) == IF bs = <<>> THEN <<>> ELSE bs[1] \o VStack(Tail(bs))

(* Everything needed to condition on z_1..z_t. *)
BatchBasis(m, z, u, t) ==
  LET pr == TLCEval(PriorSeq(m, u, 1, IF t > Len(z) THEN t ELSE Len(z), m.x0, m.P0))
      S  == TLCEval(VStack([i \in 1..t |-> HStack([j \in 1..t |->
               LET C == MMul(m.H[i], MMul(CrossCov(m, pr, i, j), MT(m.H[j])))
               IN IF i = j THEN MAdd(C, m.R[i]) ELSE C])]))
  IN [pr |-> pr, Si |-> TLCEval(MInv(S)),
      d |-> TLCEval(VStack([i \in 1..t |-> VSub(z[i], MVec(m.H[i], pr[i].x))]))]
(* Mean and covariance of x_j given z_1..z_t. *)
BatchAt(m, b, t, j) ==
  LET C == TLCEval(HStack([i \in 1..t |-> MMul(CrossCov(m, b.pr, j, i), MT(m.H[i]))]))
      W == TLCEval(MMul(C, b.Si))
  IN [x |-> VAdd(b.pr[j].x, MVec(W, b.d)),
      P |-> MSub(b.pr[j].P, MMul(W, MT(C)))]
Batch(m, z, u, t, j) == LET b == TLCEval(BatchBasis(m, z, u, t)) IN BatchAt(m, b, t, j)
=============================================================================
