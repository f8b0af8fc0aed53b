---------------------------- MODULE TraceKalman ----------------------------
(***************************************************************************)
(* Conformance: recorded behaviours of the real library against KalmanLib. *)
(*                                                                         *)
(* A case is a sequence of API events recorded from the code (constructor, *)
(* filter, smooth, predict, update, with arguments, results, the growth of *)
(* the gain log, digests of caller-owned arrays) followed by relations     *)
(* between recorded results.  The behaviour of a case is a behaviour of    *)
(* KalmanLib: every event is consumed by the library action it stands for, *)
(* one loop iteration at a time, adopting the recorded values, and each    *)
(* adopted value is judged against the exact value of that step.  Verdicts *)
(* are total: a clause that fails is printed (BAD ...) and the behaviour   *)
(* goes on; a case that was consumed to its end prints DONE.               *)
(***************************************************************************)
EXTENDS KalmanLib, Tol, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
TObj == 1..40
TModel(r) == Cases[r[1]].models[r[2]]
TZ(r) == Cases[r[1]].data[r[2]].z
TU(r) == Cases[r[1]].data[r[2]].u

VARIABLES c, i, n          \* case, index of the current event, clauses judged so far
tvars == <<vars, c, i, n>>

Events == Cases[c].events
E == Events[i]
More == i <= Len(Events)
Eps == Cases[c].eps
Wants(e, cl) == \E j \in 1..Len(e.want) : e.want[j] = cl

----------------------------------------------------------------------------
(* Verdicts *)
Say(k, cl) == PrintT("BAD " \o ToJson([case |-> c, event |-> i, k |-> k, clause |-> cl]))
Judge(k, cl, good) == IF good THEN TRUE ELSE Say(k, cl)
(* J: sequence of <<clause, holds>>; only the wanted ones are judged *)
JudgeAll(e, k, J) ==
  /\ (\A j \in 1..Len(J) : IF Wants(e, J[j][1]) THEN Judge(k, J[j][1], J[j][2]) ELSE TRUE) = TRUE
  /\ n' = n + Cardinality({j \in 1..Len(J) : Wants(e, J[j][1])})
AlwaysJudge(k, cl, good) == Judge(k, cl, good) = TRUE /\ n' = n + 1

Close(a, b, t) == RLe(RAbs(RSub(a, b)), t)
VClose(v, w, t) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : Close(v[j], w[j], t[j])
MClose(M, N, t) == Len(M) = Len(N) /\ \A j \in 1..Len(M) : VClose(M[j], N[j], t[j])

(* a mean that is not a number (a control partly given) must be reported so *)
VCloseN(v, w, t) == Len(v) = Len(w) /\ \A j \in 1..Len(v) : IF w[j][1] = 2 THEN v[j][1] = 2 ELSE Close(v[j], w[j], t[j])

(* symmetry and positive semidefiniteness up to t relative to the scales d *)
SymOk(P, d, t) ==
  \A a, b \in 1..Len(P) :
    LET df == RSub(P[a][b], P[b][a])
    IN RLe(RMul(df, df), RMul(RMul(t, t), RMul(d[a], d[b])))
SymPart(P) == MScale(RFrac(1, 2), MAdd(P, MT(P)))
DiagUp(P, d, t) == TLCEval([a \in 1..Len(P) |-> [b \in 1..Len(P) |->
                     IF a = b THEN RAdd(P[a][b], RMul(t, d[a])) ELSE P[a][b]]])
PsdOk(P, d, t) == MFin(P) /\ PSD(DiagUp(SymPart(P), d, t))
DiagOf(P) == TLCEval([a \in 1..Len(P) |-> RAbs(P[a][a])])

----------------------------------------------------------------------------
TraceInit == /\ LibInit
             /\ c \in 1..Len(Cases) /\ i = 1 /\ n = 0
Advance == i' = i + 1 /\ UNCHANGED c
Stay == UNCHANGED <<c, i>>

EvNew == /\ More /\ E.op = "new"
         /\ Construct(E.o, <<c, E.m>>)
         /\ JudgeAll(E, 0, << <<"empty", E.g = 0>> >>)
         /\ Advance

(* The owner reassigns the model or empties the log between two calls.     *)
EvSet == /\ More /\ E.op = "set"
         /\ Reassign(E.o, <<c, E.m>>)
         /\ JudgeAll(E, 0, << <<"gcount", Len(E.K) = 0 /\ E.gsame>> >>)
         /\ Advance
EvClear == /\ More /\ E.op = "clear"
           /\ ClearGains(E.o)
           /\ UNCHANGED n /\ Advance

EvBegin == /\ More /\ E.op \in {"filter", "smooth"} /\ fr[E.o].op = "idle"
           /\ Begin(E.o, E.op, <<c, E.d>>)
           /\ UNCHANGED <<c, i, n>>

(* One forward iteration.  Recorded posteriors: E.x, E.P for a filter call,*)
(* E.fx, E.fP (what filtering the same data returns) for a smooth call.    *)
RecX(e, k) == IF e.op = "filter" THEN e.x[k] ELSE e.fx[k]
RecP(e, k) == IF e.op = "filter" THEN e.P[k] ELSE e.fP[k]
HasK(e, k) == k <= Len(e.K)
EvForward ==
  /\ More /\ E.op \in {"filter", "smooth"} /\ MoreFwd(E.o) /\ E.ok
  /\ LET o == E.o
         k == FK(o)
         m == Model(objs[o].m)
         z == ZOf(fr[o].d)
         u == UOf(fr[o].d)
         jud == Wants(E, "x") \/ Wants(E, "P") \/ Wants(E, "K") \/ Wants(E, "cov") \/ Wants(E, "fabricated")
         rx == RecX(E, k)
         rP == RecP(E, k)
         p == TLCEval(RefPrior(o))
         r == TLCEval(StepUpdate(m, z, k, p.x, p.P))
         ep == TLCEval(StepPredErr(m, u, k, FX(o), FP(o), Eps))
         er == TLCEval(StepUpdErr(m, z, k, p.x, ep.x, p.P, ep.P, Eps))
         gd == r.ok /\ er.ok
         d == TLCEval([a \in 1..Len(rx) |-> RAdd(RAbs(p.P[a][a]), RAbs(rP[a][a]))])
     IN /\ Forward(o, [x |-> rx, P |-> rP, K |-> IF HasK(E, k) THEN E.K[k] ELSE <<>>])
        /\ IF jud
           THEN JudgeAll(E, k,
                << <<"x", gd => VClose(rx, r.x, er.x)>>,
                   <<"P", gd => MClose(rP, r.P, er.P)>>,
                   <<"K", HasK(E, k) => (gd => MClose(E.K[k], r.K, er.K))>>,
                   <<"cov", SymOk(rP, d, Cases[c].psd) /\ PsdOk(rP, d, Cases[c].psd)>>,
                   <<"fabricated", r.ok>> >>)
           ELSE UNCHANGED n
        /\ Stay

(* Undefined at the precision granted: the matrix to be solved with may be  *)
(* singular as floating-point numbers without being so exactly, and then    *)
(* a LinAlgError is an answer, too.                                         *)
UpdDelicate(m, z, k, xp, ex, Pp, EP) == ~StepUpdErr(m, z, k, xp, ex, Pp, EP, Eps).ok
FwdDelicate(o) ==
  LET m == Model(objs[o].m)
      u == UOf(fr[o].d)
      p == TLCEval(RefPrior(o))
      ep == TLCEval(StepPredErr(m, u, FK(o), FX(o), FP(o), Eps))
  IN UpdDelicate(m, ZOf(fr[o].d), FK(o), p.x, ep.x, p.P, ep.P)
BackDelicate(o) ==
  LET k == BK(o)
      m == Model(objs[o].m)
      u == UOf(fr[o].d)
      f == fr[o].run[k]
      s == fr[o].acc[1]
      a == TLCEval(StepPredict(m, u, k + 1, f.x, f.P))
      J == TLCEval(TransJac(m, u, k + 1, f.x))
      ea == TLCEval(StepPredErr(m, u, k + 1, f.x, f.P, Eps))
      nn == Len(f.x)
      EJ == IF m.kind = "ekf" THEN MScale(Eps, AbsJac(m.f, Arg(f.x, Ctl(m, u, k + 1)), nn)) ELSE ZeroM(nn, nn)
  IN ~RtsErr(J, EJ, f.x, f.P, a.x, ea.x, a.P, ea.P, s.x, s.P, Eps).ok

(* A recorded failure: the call returned nothing, so the steps up to it    *)
(* are taken with what filtering these steps returns (E.fx, E.fP), or with *)
(* the exact values where that is not recorded.                            *)
EvFailForward ==
  /\ More /\ E.op \in {"filter", "smooth"} /\ MoreFwd(E.o) /\ ~E.ok
  /\ LET o == E.o
         k == FK(o)
         r == TLCEval(RefPost(o))
     IN IF HasK(E, k) /\ k <= Len(E.fx)
        THEN /\ Forward(o, [x |-> E.fx[k], P |-> E.fP[k], K |-> E.K[k]])
             /\ UNCHANGED n /\ Stay
        ELSE IF HasK(E, k) /\ r.ok
        THEN /\ Forward(o, [x |-> r.x, P |-> r.P, K |-> E.K[k]])
             /\ UNCHANGED n /\ Stay
        ELSE /\ Raise(o)
             /\ LET un == ~r.ok \/ (E.err = "LinAlgError" /\ FwdDelicate(o))
                    out == \E j \in 1..Len(E.stop) : E.stop[j] = k
                IN JudgeAll(E, k, << <<"ok", FALSE>>,
                                  <<"raise", un /\ E.err = "LinAlgError">>,
                                  \* the log shows every correction before the undefined one, or before
                                  \* the step that something outside (the data, a callback) made fail
                                  <<"gcount", (un \/ out) /\ Len(E.K) = k - 1 /\ E.gsame>> >>)
             /\ Advance

EvFailEnd ==                    \* failed although every forward step was taken
  /\ More /\ E.op = "filter" /\ ~E.ok /\ InFwd(E.o) /\ ~MoreFwd(E.o)
  /\ Raise(E.o)
  /\ JudgeAll(E, 0, << <<"ok", FALSE>>, <<"raise", FALSE>>, <<"gcount", FALSE>> >>)
  /\ Advance

(* run-level clauses, once the forward loop is over *)
Count(e, o) == Len(e.K) = Len(ZOf(fr[o].d)) /\ e.gsame
ShapeOk(e, T, nn) == /\ e.sh.x = <<T, nn>> /\ e.sh.P = <<T, nn, nn>>
                     /\ e.sh.dt = "f"
EvReturnFilter ==
  /\ More /\ E.op = "filter" /\ E.ok /\ ReturnFilter(E.o)
  /\ JudgeAll(E, 0, << <<"ok", TRUE>>, <<"gcount", Count(E, E.o)>>,
                       <<"shape", ShapeOk(E, Len(ZOf(fr[E.o].d)), Len(Model(objs[E.o].m).x0))>> >>)
  /\ Advance
EvStartBack ==
  /\ More /\ E.op = "smooth" /\ fr[E.o].op = "smooth" /\ StartBack(E.o)
  /\ LET T == Len(fr[E.o].run)
         d == DiagOf(fr[E.o].run[T].P)
         t == Cases[c].psd
     IN IF E.ok
        THEN JudgeAll(E, T, << <<"ok", TRUE>>, <<"gcount", Count(E, E.o)>>,
               <<"shape", ShapeOk(E, T, Len(Model(objs[E.o].m).x0))>>,
               <<"slast", /\ \A a \in 1..Len(d) : Close(E.x[T][a], E.fx[T][a], RMul(Eps, RAbs(E.fx[T][a])))
                          /\ \A a, b \in 1..Len(d) :
                               Close(E.P[T][a][b], E.fP[T][a][b], RMul(Eps, RMax(d[a], d[b])))>>,
               <<"cov", SymOk(E.P[T], d, t) /\ PsdOk(E.P[T], d, t)>> >>)
        ELSE UNCHANGED n
  /\ Stay
EvBackward ==
  /\ More /\ E.op = "smooth" /\ E.ok /\ MoreBack(E.o)
  /\ LET o == E.o
         k == BK(o)
         m == Model(objs[o].m)
         u == UOf(fr[o].d)
         f == fr[o].run[k]
         s == fr[o].acc[1]
         jud == Wants(E, "sx") \/ Wants(E, "sP")
         a == TLCEval(StepPredict(m, u, k + 1, f.x, f.P))
         J == TLCEval(TransJac(m, u, k + 1, f.x))
         r == TLCEval(RtsStep(J, f.x, f.P, a.x, a.P, s.x, s.P))
         ea == TLCEval(StepPredErr(m, u, k + 1, f.x, f.P, Eps))
         nn == Len(f.x)
         EJ == IF m.kind = "ekf" THEN MScale(Eps, AbsJac(m.f, Arg(f.x, Ctl(m, u, k + 1)), nn)) ELSE ZeroM(nn, nn)
         er == TLCEval(RtsErr(J, EJ, f.x, f.P, a.x, ea.x, a.P, ea.P, s.x, s.P, Eps))
         gd == r.ok /\ er.ok
         d == DiagOf(f.P)
         t == Cases[c].psd
     IN /\ Backward(o, [x |-> E.x[k], P |-> E.P[k]])
        /\ IF jud \/ Wants(E, "cov") \/ Wants(E, "sord") \/ Wants(E, "fabricated")
           THEN JudgeAll(E, k,
               << <<"sx", gd => VClose(E.x[k], r.x, er.x)>>,
                  <<"sP", gd => MClose(E.P[k], r.P, er.P)>>,
                  <<"fabricated", r.ok>>,
                  <<"cov", SymOk(E.P[k], d, t) /\ PsdOk(E.P[k], d, t)>>,
                  <<"sord", PsdOk(MSub(f.P, E.P[k]), d, t)>> >>)
           ELSE UNCHANGED n
        /\ Stay
(* failing in the backward pass *)
EvFailBack ==
  /\ More /\ E.op = "smooth" /\ ~E.ok /\ InBack(E.o)
  /\ LET o == E.o
         r == IF MoreBack(o) THEN TLCEval(RefBack(o)) ELSE [ok |-> TRUE]
         out == \E j \in 1..Len(E.stop) : E.stop[j] = 0
         un == MoreBack(o) /\ (~r.ok \/ (E.err = "LinAlgError" /\ BackDelicate(o)))
     IN IF MoreBack(o) /\ ~un /\ ~out
        THEN /\ Backward(o, r) /\ UNCHANGED n /\ Stay
        ELSE /\ Raise(o)
             /\ JudgeAll(E, BK(o), << <<"ok", FALSE>>, <<"raise", un /\ E.err = "LinAlgError">>,
                                      <<"gcount", Count(E, o)>> >>)
             /\ Advance
EvReturnSmooth ==
  /\ More /\ E.op = "smooth" /\ E.ok /\ ReturnSmooth(E.o)
  /\ UNCHANGED n /\ Advance

(* Direct calls.  E.m refers to a one-step model holding the arguments and *)
(* E.d to the observation and control; E.x0, E.P0 are the state arguments. *)
EvPredict ==
  /\ More /\ E.op = "predict" /\ E.ok
  /\ DirectPredict(E.o, <<c, E.d>>, [x |-> E.x, P |-> E.P])
  /\ LET m == TModel(<<c, E.m>>)
         u == TU(<<c, E.d>>)
         p == TLCEval(StepPredict(m, u, 1, m.x0, m.P0))
         ep == TLCEval(StepPredErr(m, u, 1, m.x0, m.P0, Eps))
     IN JudgeAll(E, 0, << <<"ok", TRUE>>, <<"x", VCloseN(E.x, p.x, ep.x)>>, <<"P", MClose(E.P, p.P, ep.P)>>,
                          <<"gcount", Len(E.K) = 0 /\ E.gsame>> >>)
  /\ Advance
EvUpdate ==
  /\ More /\ E.op = "update" /\ E.ok
  /\ DirectUpdate(E.o, <<c, E.d>>, [x |-> E.x, P |-> E.P, K |-> IF Len(E.K) >= 1 THEN E.K[1] ELSE <<>>])
  /\ LET m == TModel(<<c, E.m>>)
         z == TZ(<<c, E.d>>)
         nn == Len(m.x0)
         r == TLCEval(StepUpdate(m, z, 1, m.x0, m.P0))
         er == TLCEval(StepUpdErr(m, z, 1, m.x0, ZeroV(nn), m.P0, ZeroM(nn, nn), Eps))
         gd == r.ok /\ er.ok
         d == DiagOf(m.P0)
         t == Cases[c].psd
     IN JudgeAll(E, 0,
          << <<"ok", TRUE>>,
             <<"x", gd => VClose(E.x, r.x, er.x)>>,
             <<"P", gd => MClose(E.P, r.P, er.P)>>,
             <<"K", Len(E.K) = 1 /\ (gd => MClose(E.K[1], r.K, er.K))>>,
             <<"gcount", Len(E.K) = 1 /\ E.gsame>>,
             <<"fabricated", r.ok>>,
             <<"cov", SymOk(E.P, d, t) /\ PsdOk(E.P, d, t)>>,
             <<"ord", PsdOk(MSub(m.P0, E.P), d, t)>> >>)
  /\ Advance
EvDirectFail ==
  /\ More /\ E.op \in {"predict", "update"} /\ ~E.ok
  /\ DirectRaise(E.o, <<c, E.d>>)
  /\ LET m == TModel(<<c, E.m>>)
         r == IF E.op = "update" THEN TLCEval(StepUpdate(m, TZ(<<c, E.d>>), 1, m.x0, m.P0)) ELSE [ok |-> TRUE]
         un == ~r.ok \/ (E.op = "update" /\ E.err = "LinAlgError"
                         /\ UpdDelicate(m, TZ(<<c, E.d>>), 1, m.x0, ZeroV(Len(m.x0)), m.P0, ZeroM(Len(m.x0), Len(m.x0))))
     IN JudgeAll(E, 0, << <<"ok", FALSE>>, <<"raise", un /\ E.err = "LinAlgError">>,
                          <<"gcount", Len(E.K) = 0 /\ E.gsame>> >>)
  /\ Advance

----------------------------------------------------------------------------
(* Whole-run oracles: the posterior of the joint Gaussian, computed without*)
(* any recursion on the data (batch), and the exact recursion from the     *)
(* model alone (e2e).  E.e is the event judged, E.ts the steps.            *)
Ref(j) == Events[j]
EvBatch ==
  /\ More /\ E.op = "batch"
  /\ LET e == Ref(E.e)
         m == TModel(<<c, E.m>>)
         z == TZ(<<c, e.d>>)
         u == TU(<<c, e.d>>)
         T == Len(z)
         bs == IF e.op = "filter" THEN {<<E.ts[j], E.ts[j]>> : j \in 1..Len(E.ts)}
               ELSE {<<T, E.ts[j]>> : j \in 1..Len(E.ts)}
         t == E.tol
         Good(b, rx, rP) == /\ \A a \in 1..Len(rx) : Close(rx[a], b.x[a], t)
                            /\ \A a1, a2 \in 1..Len(rx) : Close(rP[a1][a2], b.P[a1][a2], t)
         sb == IF e.op = "smooth" THEN TLCEval(BatchBasis(m, z, u, T)) ELSE <<>>
     IN /\ (\A q \in bs :
              LET b == TLCEval(IF e.op = "smooth" THEN BatchAt(m, sb, T, q[2]) ELSE Batch(m, z, u, q[1], q[2]))
              IN Judge(q[2], "batch", e.ok /\ Good(b, e.x[q[2]], e.P[q[2]]))) = TRUE
        /\ n' = n + Cardinality(bs)
  /\ UNCHANGED vars /\ Advance
EvE2e ==
  /\ More /\ E.op = "e2e"
  /\ LET e == Ref(E.e)
         m == TModel(<<c, E.m>>)
         z == TZ(<<c, e.d>>)
         u == TU(<<c, e.d>>)
         run == TLCEval(IF e.op = "filter" THEN FilterRun(m, z, u) ELSE SmoothRun(m, z, u))
         t == E.tol
     IN /\ (\A k \in 1..Len(z) :
              Judge(k, "e2e", /\ e.ok /\ RunOk(run)
                              /\ \A a \in 1..Len(m.x0) : Close(e.x[k][a], run[k].x[a], t)
                              /\ \A a, b \in 1..Len(m.x0) : Close(e.P[k][a][b], run[k].P[a][b], t))) = TRUE
        /\ n' = n + Len(z)
  /\ UNCHANGED vars /\ Advance

----------------------------------------------------------------------------
(* Relations between recorded results.  A side is built from events es:    *)
(* their results are concatenated (cat) or combined with the weights w,    *)
(* restricted to the steps idx, rows (state components) and cols (observed *)
(* components) where given, and mapped by x -> M x + off, P -> M P M',     *)
(* K -> M K W.                                                             *)
Sub(v, ix) == IF ix = <<>> THEN v ELSE [j \in 1..Len(ix) |-> v[ix[j]]]
SubM(Mx, r, q) == [j \in 1..Len(Sub(Mx, r)) |-> Sub(Sub(Mx, r)[j], q)]
Seqs(e) == IF e.op \in {"predict", "update"}
           THEN [x |-> <<e.x>>, P |-> <<e.P>>, K |-> e.K] ELSE [x |-> e.x, P |-> e.P, K |-> e.K]
RECURSIVE CatF(_, _, _)
CatF(es, f, j) == IF j > Len(es) THEN <<>> ELSE Seqs(Ref(es[j]))[f] \o CatF(es, f, j + 1)
RECURSIVE Comb(_, _, _, _)
Comb(es, w, k, j) ==       \* weighted sum of means of step k
  IF j = 1 THEN VScale(w[1], Seqs(Ref(es[1])).x[k])
  ELSE VAdd(Comb(es, w, k, j - 1), VScale(w[j], Seqs(Ref(es[j])).x[k]))
SideX(s) ==
  LET x0 == IF s.w = <<>> THEN CatF(s.es, "x", 1)
            ELSE [k \in 1..Len(Seqs(Ref(s.es[1])).x) |-> Comb(s.es, s.w, k, Len(s.es))]
      x1 == Sub(x0, s.idx)
  IN TLCEval([k \in 1..Len(x1) |->
       LET v == Sub(x1[k], s.rows)
           mv == IF s.M = <<>> THEN v ELSE MVec(s.M, v)
       IN IF s.off = <<>> THEN mv ELSE VAdd(mv, s.off[k])])
SideP(s) ==
  LET P0 == IF s.w = <<>> THEN CatF(s.es, "P", 1) ELSE Seqs(Ref(s.es[1])).P
      P1 == Sub(P0, s.idx)
  IN TLCEval([k \in 1..Len(P1) |->
       LET v == SubM(P1[k], s.rows, s.rows)
       IN IF s.M = <<>> THEN v ELSE MMul(s.M, MMul(v, MT(s.M)))])
SideK(s) ==
  LET K0 == IF s.w = <<>> THEN CatF(s.es, "K", 1) ELSE Seqs(Ref(s.es[1])).K
      K1 == Sub(K0, s.idx)
  IN TLCEval([k \in 1..Len(K1) |->
       LET v == SubM(K1[k], s.rows, s.cols)
           a == IF s.M = <<>> THEN v ELSE MMul(s.M, v)
       IN IF s.W = <<>> THEN a ELSE MMul(a, s.W)])
(* A side fits when every step, row and column it selects is there: a     *)
(* result with entries missing breaks the relation.                        *)
In(ix, len) == \A j \in 1..Len(ix) : ix[j] <= len
FitM(v, rows, cols, s) == /\ In(rows, Len(v))
                          /\ \A a \in 1..Len(v) : In(cols, Len(v[a]))
                          /\ s.M # <<>> => Len(s.M[1]) = Len(Sub(v, rows))
Fit(s, f) ==
  LET q == IF s.w = <<>> THEN CatF(s.es, f, 1) ELSE Seqs(Ref(s.es[1]))[f]
  IN /\ In(s.idx, Len(q))
     /\ s.w # <<>> => \A j \in 1..Len(s.es) : Len(Seqs(Ref(s.es[j]))[f]) = Len(q)
     /\ LET v == Sub(q, s.idx)
        IN CASE f = "x" -> /\ s.off # <<>> => Len(s.off) = Len(v)
                           /\ \A k \in 1..Len(v) : In(s.rows, Len(v[k])) /\ (s.M # <<>> => Len(s.M[1]) = Len(Sub(v[k], s.rows)))
             [] f = "P" -> \A k \in 1..Len(v) : FitM(v[k], s.rows, s.rows, s)
             [] f = "K" -> \A k \in 1..Len(v) : FitM(v[k], s.rows, s.cols, s)
AllOk(s) == \A j \in 1..Len(s.es) : Ref(s.es[j]).ok
AllFail(s, err) == \A j \in 1..Len(s.es) : ~Ref(s.es[j]).ok /\ Ref(s.es[j]).err = err
(* results that are no numbers agree with results that are no numbers *)
Close2(a, b, t) == IF a[1] = 2 \/ b[1] = 2 THEN a[1] = b[1] ELSE Close(a, b, t)
Finite(v) == [k \in 1..Len(v) |-> IF v[k][1] = 2 THEN Zero ELSE v[k]]
FMax(v) == VMax(Finite(v))
FMMax(Mx) == VMax([k \in 1..Len(Mx) |-> FMax(Mx[k])])
SMax(s) == VMax([k \in 1..Len(s) |-> FMax(s[k])])
MSMax(s) == VMax([k \in 1..Len(s) |-> FMMax(s[k])])
(* The scale of a comparison: one plus the largest finite entry of the     *)
(* left-hand side, taken over the whole side or (E.step) step by step; of  *)
(* all the events a weighted sum combines, in the latter case.             *)
AbsRow(s, k) == VMax([j \in 1..Len(s.es) |-> FMax(Seqs(Ref(s.es[j])).x[k])])
ScaleX(s, l) == IF ~E.step THEN LET g == TLCEval(SMax(l)) IN [k \in 1..Len(l) |-> g]
                ELSE TLCEval([k \in 1..Len(l) |-> IF s.w = <<>> THEN FMax(l[k]) ELSE AbsRow(s, k)])
ScaleM(l) == IF ~E.step THEN LET g == TLCEval(MSMax(l)) IN [k \in 1..Len(l) |-> g]
             ELSE TLCEval([k \in 1..Len(l) |-> FMMax(l[k])])
RelX(s, l, r, t) == /\ Len(l) = Len(r)
                    /\ LET sc == ScaleX(s, l)
                       IN \A k \in 1..Len(l) : Len(l[k]) = Len(r[k]) /\ LET tt == TLCEval(RMul(t, RAdd(One, sc[k]))) IN
                            \A a \in 1..Len(l[k]) : Close2(l[k][a], r[k][a], tt)
RelM(l, r, t) == /\ Len(l) = Len(r)
                 /\ LET sc == ScaleM(l)
                    IN \A k \in 1..Len(l) : Len(l[k]) = Len(r[k]) /\ LET tt == TLCEval(RMul(t, RAdd(One, sc[k]))) IN
                         \A a \in 1..Len(l[k]) : Len(l[k][a]) = Len(r[k][a]) /\ \A b \in 1..Len(l[k][a]) : Close2(l[k][a][b], r[k][a][b], tt)
Has(s, x) == \E j \in 1..Len(s) : s[j] = x
EvRel ==
  /\ More /\ E.op = "rel"
  /\ LET okk == AllOk(E.l) /\ AllOk(E.r)
         err == Ref(E.l.es[1]).err
         fail == Has(E.cmp, "fail") /\ AllFail(E.l, err) /\ AllFail(E.r, err)
     IN AlwaysJudge(0, E.name, IF fail THEN Has(E.cmp, "K") => Fit(E.l, "K") /\ Fit(E.r, "K") /\ RelM(SideK(E.l), SideK(E.r), E.tol) ELSE
          /\ okk
          /\ \A f \in {"x", "P", "K"} : Has(E.cmp, f) => Fit(E.l, f) /\ Fit(E.r, f)
          /\ Has(E.cmp, "x") => RelX(E.l, SideX(E.l), SideX(E.r), E.tol)
          /\ Has(E.cmp, "P") => RelM(SideP(E.l), SideP(E.r), E.tol)
          /\ Has(E.cmp, "K") => RelM(SideK(E.l), SideK(E.r), E.tol))
  /\ UNCHANGED vars /\ Advance
(* blocks of results that must vanish: rows x cols2 of P, rows x cols of K *)
EvZero ==
  /\ More /\ E.op = "zero"
  /\ LET e == Ref(E.e)
         q == Seqs(e)
     IN AlwaysJudge(0, E.name,
          /\ e.ok
          /\ \A k \in 1..Len(q.P) : In(E.rows, Len(q.P[k])) /\ In(E.rows2, Len(q.P[k]))
          /\ \A k \in 1..Len(q.K) : In(E.rows, Len(q.K[k])) /\ \A a \in 1..Len(q.K[k]) : In(E.cols, Len(q.K[k][a]))
          /\ \A k \in 1..Len(q.P) : \A a \in 1..Len(E.rows), b \in 1..Len(E.rows2) :
               Close(q.P[k][E.rows[a]][E.rows2[b]], Zero, E.tol)
          /\ \A k \in 1..Len(q.K) : \A a \in 1..Len(E.rows), b \in 1..Len(E.cols) :
               Close(q.K[k][E.rows[a]][E.cols[b]], Zero, E.tol))
  /\ UNCHANGED vars /\ Advance

----------------------------------------------------------------------------
(* Observations that are not numbers: digests of arrays before and after   *)
(* (they must be equal), and facts of the placeholder helpers.             *)
EvSame ==
  /\ More /\ E.op = "same"
  /\ AlwaysJudge(0, E.name, E.a = E.b)
  /\ UNCHANGED vars /\ Advance
(* isnan: E.cells tells for each element whether it is NaN *)
EvIsNan ==
  /\ More /\ E.op = "isnan"
  /\ AlwaysJudge(0, "isnan", E.ok /\ (E.res <=> \A j \in 1..Len(E.cells) : E.cells[j]))
  /\ UNCHANGED vars /\ Advance
EvBcast ==
  /\ More /\ E.op = "bcast"
  /\ AlwaysJudge(0, "bcast",
       /\ E.ok
       /\ IF E.given THEN E.same
          ELSE /\ E.kind = "f" /\ E.shape = E.ref
               /\ \A j \in 1..Len(E.cells) : E.cells[j])
  /\ UNCHANGED vars /\ Advance

(* Callback log: E.log entries [fn, x, u] with fn in f, JA, h, JH.  pts are *)
(* the posterior means (x0 first), xps the predicted means per step.       *)
CloseV(v, w) == Len(v) = Len(w) /\ \A a \in 1..Len(v) :
                  v[a] = w[a] \/ Close(v[a], w[a], RMul(Eps, RAdd(RAbs(w[a]), RAbs(v[a]))))
SameU(v, w) == Len(v) = Len(w) /\ \A a \in 1..Len(v) : v[a] = w[a]
EvCalls ==
  /\ More /\ E.op = "calls"
  /\ LET Point(en) == IF en.fn \in {"f", "JA"}
                      THEN \E k \in 1..Len(E.xps) : CloseV(en.x, E.pts[k]) /\ SameU(en.u, E.us[k])
                      ELSE \E k \in 1..Len(E.xps) : CloseV(en.x, E.xps[k])
     IN /\ (\A j \in 1..Len(E.log) : Judge(j, "point", Point(E.log[j]))) = TRUE
        /\ Judge(0, "covered", \A fn \in {"f", "JA", "h", "JH"} : \E j \in 1..Len(E.log) : E.log[j].fn = fn) = TRUE
        /\ n' = n + Len(E.log) + 1
  /\ UNCHANGED vars /\ Advance

Finish == /\ i = Len(Events) + 1
          /\ PrintT("DONE " \o ToJson([case |-> c, judged |-> n]))
          /\ i' = i + 1 /\ UNCHANGED <<vars, c, n>>

TraceNext == \/ EvNew \/ EvSet \/ EvClear \/ EvBegin \/ EvForward \/ EvFailForward \/ EvFailEnd \/ EvReturnFilter \/ EvStartBack
             \/ EvBackward \/ EvFailBack \/ EvReturnSmooth \/ EvPredict \/ EvUpdate \/ EvDirectFail
             \/ EvBatch \/ EvE2e \/ EvRel \/ EvZero \/ EvSame \/ EvIsNan \/ EvBcast \/ EvCalls \/ Finish
(* A case has one behaviour, and within a case the position identifies the  *)
(* state; TLC need not fingerprint the recorded values.                    *)
TraceView == <<c, i, IF More /\ E.op \in {"filter", "smooth"} /\ fr[E.o].op # "idle"
                     THEN <<fr[E.o].ph, Len(fr[E.o].run), Len(fr[E.o].acc)>> ELSE <<>> >>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
