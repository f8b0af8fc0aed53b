-------------------------------- MODULE Tol --------------------------------
(***************************************************************************)
(* Running error analysis: how far a floating-point implementation of one  *)
(* step may land from the exact value of that step, entry by entry.  All   *)
(* quantities are entrywise magnitudes; e is the relative error granted to *)
(* every elementary matrix operation (far above the unit roundoff of the   *)
(* arithmetic in use, far below any change of behaviour).  Errors of       *)
(* solving with S are bounded through |S^-1|, so ill-conditioned steps get *)
(* the slack their conditioning demands and no other step gets any.        *)
(* Intermediate magnitudes are rounded up to powers of two, which only     *)
(* enlarges the bound and keeps the numbers small.                         *)
(***************************************************************************)
EXTENDS Gauss

VAbs(v) == VUp(v)
AV(M, v) == VUp(MVec(M, v))
AM(M, N) == MUp(MMul(M, N))
AT(M)    == MT(M)
A3(M, N, L) == AM(M, AM(N, L))
ZeroM(r, c) == TLCEval([i \in 1..r |-> [j \in 1..c |-> Zero]])
ZeroV(n) == TLCEval([i \in 1..n |-> Zero])
Plus(M, N) == MUp(MAdd(M, N))
Plus3(M, N, L) == Plus(M, MAdd(N, L))
VPlus(v, w) == VUp(VAdd(v, w))

(* Underflow: below this magnitude a result may be lost altogether.  The   *)
(* second value is the one of single precision.                            *)
RECURSIVE Squared(_, _)
Squared(a, k) == IF k = 0 THEN a ELSE Squared(RMul(a, a), k - 1)
Tiny64 == Squared(RFrac(1, 32768), 6)           \* 2^-960
Tiny32 == Squared(RFrac(1, 128), 4)             \* 2^-112
Tiny(e) == IF RLe(e, RFrac(1, 100000000)) THEN Tiny64 ELSE Tiny32
Fl(M, e) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> RUp(RAdd(M[i][j], Tiny(e)))]])
VFl(v, e) == TLCEval([i \in 1..Len(v) |-> RUp(RAdd(v[i], Tiny(e)))])

(* largest magnitude in row i or column j of S, as a matrix *)
RowCol(S) == LET St == MT(S)
             IN TLCEval([i \in 1..Len(S) |-> [j \in 1..Len(S) |->
                  RUp(RMax(VMax(S[i]), VMax(St[j])))]])

(* Prediction: f is the magnitude of the terms of the mean, J and EJ the   *)
(* Jacobian and its own evaluation error.                                  *)
PredErr(f, J, EJ, P, Q, e) ==
  LET a == TLCEval(MUp(J))
      p == TLCEval(MUp(P))
      JPJ == TLCEval(A3(a, p, AT(a)))
      cross == TLCEval(A3(EJ, p, AT(a)))
  IN [x |-> VFl(VScale(e, f), e),
      P |-> Fl(Plus3(MScale(e, Plus(JPJ, MUp(Q))), cross, AT(cross)), e)]

(* Correction from a prior known up to ex, EP; hx is known up to eh and H  *)
(* up to EH.  ok is FALSE when S is singular at the granted precision.     *)
UpdErr(H, EH, x, ex, P, EP, z, hx, eh, R, e) ==
  LET h  == TLCEval(MUp(H))
      p  == TLCEval(MUp(P))
      n  == Len(x)
      Sx == TLCEval(MAdd(MMul(H, MMul(P, MT(H))), R))
      Sv == TLCEval(MInv(Sx))
      si == TLCEval(MUp(Sv))
      k  == TLCEval(MUp(MMul(MMul(P, MT(H)), Sv)))
      pht == TLCEval(AM(p, AT(h)))
      EPH == TLCEval(Fl(Plus3(MScale(e, pht), AM(EP, AT(h)), AM(p, AT(EH))), e))
      ES  == TLCEval(Fl(Plus(Plus3(MScale(e, Plus(AM(h, pht), MUp(R))), A3(h, EP, AT(h)),
                                Plus(AM(EH, pht), AT(AM(EH, pht)))),
                          MScale(e, RowCol(Sx))), e))
      EK  == TLCEval(Plus(AM(Plus(EPH, AM(k, ES)), si), MScale(e, k)))
      inn == TLCEval(VUp(VSub(z, hx)))
      ei  == TLCEval(VPlus(VScale(e, VPlus(VUp(z), VUp(hx))), eh))
      ikh == TLCEval(Plus(MId(n), AM(k, h)))
  IN IF Sv = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> RLe(MMax(AM(ES, si)), RFrac(1, 4)),
           K |-> Fl(EK, e),
           x |-> VFl(VPlus(VPlus(ex, VScale(e, VPlus(VUp(x), AV(k, inn)))),
                       VPlus(AV(EK, inn), AV(k, ei))), e),
           P |-> Fl(Plus(Plus3(A3(EK, h, p), A3(k, EH, p), AM(ikh, EP)),
                      MScale(e, Plus3(AM(ikh, p), A3(ikh, p, AT(ikh)), A3(k, MUp(R), AT(k))))), e)]

(* Backward step. *)
RtsErr(A, EA, x, P, xa, exa, Pa, EPa, xs, Ps, e) ==
  LET a  == TLCEval(MUp(A))
      p  == TLCEval(MUp(P))
      Pv == TLCEval(MInv(Pa))
      pi == TLCEval(MUp(Pv))
      g  == TLCEval(MUp(MMul(MMul(P, MT(A)), Pv)))
      E1 == TLCEval(Fl(Plus(EPa, MScale(e, RowCol(Pa))), e))
      EPA == TLCEval(Fl(Plus(MScale(e, AM(p, AT(a))), AM(p, AT(EA))), e))
      EG == TLCEval(Plus(AM(Plus(EPA, AM(g, E1)), pi), MScale(e, g)))
      dx == TLCEval(VUp(VSub(xs, xa)))
      D  == TLCEval(MUp(MSub(Ps, Pa)))
      ed == TLCEval(VPlus(exa, VScale(e, VPlus(VUp(xs), VUp(xa)))))
      ED == TLCEval(Plus(EPa, MScale(e, Plus(MUp(Ps), MUp(Pa)))))
      c  == TLCEval(A3(EG, D, AT(g)))
  IN IF Pv = <<>> THEN [ok |-> FALSE]
     ELSE [ok |-> RLe(MMax(AM(E1, pi)), RFrac(1, 4)),
           x |-> VFl(VPlus(VPlus(AV(EG, dx), AV(g, ed)), VScale(e, VPlus(VUp(x), AV(g, dx)))), e),
           P |-> Fl(Plus(Plus3(c, AT(c), A3(g, ED, AT(g))),
                      MScale(e, Plus(p, A3(g, D, AT(g))))), e)]

----------------------------------------------------------------------------
(* Magnitudes of the terms of a polynomial map. *)
AbsMap(F) == TLCEval([i \in 1..Len(F) |-> [j \in 1..Len(F[i]) |->
                [c |-> RAbs(F[i][j].c), e |-> F[i][j].e]]])
AbsVal(F, y) == VUp(MapVal(AbsMap(F), [i \in 1..Len(y) |-> RAbs(y[i])]))
AbsJac(F, y, n) == MUp(MapJac(AbsMap(F), [i \in 1..Len(y) |-> RAbs(y[i])], n))

(* Error of a step of model m taken from exactly x, P. *)
StepPredErr(m, u, k, x, P, e) ==
  IF m.kind = "kf"
  THEN LET a == TLCEval(AV(MUp(m.A[k]), VUp(x)))
           b == BAt(m, k)
           v == Ctl(m, u, k)
       IN PredErr(IF AbsentM(b) \/ AbsentV(v) THEN a ELSE VPlus(a, AV(MUp(b), VUp(v))),
                  m.A[k], ZeroM(Len(x), Len(x)), P, m.Q[k], e)
  ELSE IF m.kind = "ekf"
  THEN LET y == Arg(x, Ctl(m, u, k))
       IN PredErr(AbsVal(m.f, y), MapJac(m.f, y, Len(x)), MScale(e, AbsJac(m.f, y, Len(x))), P, m.Q[k], e)
  ELSE PredErr(VUp(m.fx[k]), m.JA[k], ZeroM(Len(x), Len(x)), P, m.Q[k], e)

(* ... of the correction that follows it. *)
StepUpdErr(m, z, k, xp, exp_, Pp, EPp, e) ==
  LET H  == TLCEval(ObsJac(m, k, xp))
      hx == TLCEval(ObsVal(m, k, xp))
      n  == Len(xp)
      r  == Len(z[k])
      AJ == TLCEval(AbsJac(m.h, xp, n))
      EH == IF m.kind # "ekf" THEN ZeroM(r, n)
            ELSE \* second derivatives times the error of the point, and evaluation
                 TLCEval([i \in 1..r |-> [j \in 1..n |->
                   RUp(RAdd(RMul(e, AJ[i][j]),
                            Dot(AbsVal([l \in 1..n |-> PolyD(PolyD(m.h[i], j), l)], xp), exp_)))]])
      eh == IF m.kind = "tab" THEN VScale(e, VUp(hx))
            ELSE IF m.kind = "kf" THEN VPlus(VScale(e, AV(MUp(H), VUp(xp))), AV(MUp(H), exp_))
            ELSE VPlus(VScale(e, AbsVal(m.h, xp)), AV(AJ, exp_))
  IN UpdErr(H, EH, xp, exp_, Pp, EPp, z[k], hx, eh, m.R[k], e)
=============================================================================
