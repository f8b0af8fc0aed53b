------------------------------- MODULE MCHist -------------------------------
(***************************************************************************)
(* Histories: every interleaving of calls (filter, smooth, predict, update,*)
(* runs that fail) on a few objects, checked against references that are   *)
(* functions of the model and the arguments only.                          *)
(***************************************************************************)
EXTENDS KalmanLib, Json

CONSTANTS MaxCalls, Kinds, Emit   \* calls per behaviour; object kinds used; print scripts?

VARIABLES hist                    \* API calls started so far, in order
hvars == <<vars, hist>>

q(i, j) == RFrac(i, j)
V1(a) == <<a>>
M1(a) == <<<<a>>>>
(* 1: scalar linear model with control and time-varying parameters         *)
(* 2: 2-state model, one observed component, no control matrix             *)
(* 3: scalar quadratic EKF  x' = x + x^2/8 + u,  h = x - x^2/4             *)
(* 4: like 1 but the second step has a singular innovation covariance      *)
(* 5: scalar model with zero prior covariance, singular backward pass      *)
ModelList == <<
  [kind |-> "kf", A |-> <<M1(q(1,2)), M1(q(-1,1)), M1(q(3,2))>>,
   B |-> <<M1(q(1,1)), M1(q(1,2)), M1(q(-1,1))>>,
   H |-> <<M1(q(1,1)), M1(q(2,1)), M1(q(-1,2))>>,
   Q |-> <<M1(q(1,4)), M1(q(1,1)), M1(q(1,2))>>,
   R |-> <<M1(q(1,2)), M1(q(1,1)), M1(q(2,1))>>, x0 |-> V1(q(1,1)), P0 |-> M1(q(1,1))],
  [kind |-> "kf", A |-> <<<<<<q(1,1), q(1,2)>>, <<q(0,1), q(1,1)>>>>, <<<<q(1,1), q(1,1)>>, <<q(0,1), q(1,1)>>>>>>,
   B |-> <<>>,
   H |-> <<<<<<q(1,1), q(0,1)>>>>, <<<<q(1,1), q(-1,2)>>>>>>,
   Q |-> <<<<<<q(1,4), q(0,1)>>, <<q(0,1), q(1,4)>>>>, <<<<q(1,2), q(1,4)>>, <<q(1,4), q(1,4)>>>>>>,
   R |-> <<M1(q(1,1)), M1(q(1,2))>>, x0 |-> <<q(0,1), q(1,1)>>, P0 |-> <<<<q(1,1), q(1,4)>>, <<q(1,4), q(1,2)>>>>],
  [kind |-> "ekf",
   f |-> << <<[c |-> q(1,1), e |-> <<1, 0>>], [c |-> q(1,8), e |-> <<2, 0>>], [c |-> q(1,1), e |-> <<0, 1>>]>> >>,
   h |-> << <<[c |-> q(1,1), e |-> <<1>>], [c |-> q(-1,4), e |-> <<2>>]>> >>,
   Q |-> <<M1(q(1,4)), M1(q(1,2)), M1(q(1,4))>>, R |-> <<M1(q(1,1)), M1(q(1,2)), M1(q(2,1))>>,
   x0 |-> V1(q(1,2)), P0 |-> M1(q(1,2))],
  [kind |-> "kf", A |-> <<M1(q(1,1)), M1(q(0,1)), M1(q(1,1))>>, B |-> <<>>,
   H |-> <<M1(q(1,1)), M1(q(1,1)), M1(q(1,1))>>, Q |-> <<M1(q(1,1)), M1(q(0,1)), M1(q(1,1))>>,
   R |-> <<M1(q(1,1)), M1(q(0,1)), M1(q(1,1))>>, x0 |-> V1(q(0,1)), P0 |-> M1(q(1,1))],
  [kind |-> "kf", A |-> <<M1(q(1,1)), M1(q(1,1))>>, B |-> <<>>,
   H |-> <<M1(q(1,1)), M1(q(1,1))>>, Q |-> <<M1(q(0,1)), M1(q(0,1))>>,
   R |-> <<M1(q(1,1)), M1(q(1,1))>>, x0 |-> V1(q(2,1)), P0 |-> M1(q(0,1))],
  [kind |-> "kf", A |-> <<M1(q(-1,1)), M1(q(1,2)), M1(q(2,1))>>,
   B |-> <<M1(q(1,2)), M1(q(2,1)), M1(q(1,1))>>,
   H |-> <<M1(q(2,1)), M1(q(-1,1)), M1(q(1,1))>>,
   Q |-> <<M1(q(1,1)), M1(q(1,8)), M1(q(1,4))>>,
   R |-> <<M1(q(1,1)), M1(q(1,4)), M1(q(1,2))>>, x0 |-> V1(q(-2,1)), P0 |-> M1(q(1,2))],
  [kind |-> "ekf",
   f |-> << <<[c |-> q(-1,2), e |-> <<1, 0>>], [c |-> q(1,4), e |-> <<2, 0>>], [c |-> q(1,2), e |-> <<1, 1>>]>> >>,
   h |-> << <<[c |-> q(2,1), e |-> <<1>>], [c |-> q(1,8), e |-> <<2>>]>> >>,
   Q |-> <<M1(q(1,2)), M1(q(1,4)), M1(q(1,1))>>, R |-> <<M1(q(1,2)), M1(q(1,1)), M1(q(1,4))>>,
   x0 |-> V1(q(-1,4)), P0 |-> M1(q(1,1))],
  [kind |-> "kf", A |-> <<M1(q(1,1)), M1(q(1,2)), M1(q(1,1))>>, B |-> <<>>,
   H |-> <<M1(q(1,1)), M1(q(1,1)), M1(q(2,1))>>, Q |-> <<M1(q(1,2)), M1(q(1,1)), M1(q(1,4))>>,
   R |-> <<M1(q(1,1)), M1(q(1,1)), M1(q(1,2))>>, x0 |-> V1(q(1,1)), P0 |-> M1(q(1,2))] >>
(* 6, 7, 8: other models of the shapes of 1, 3, 4 (see MCLive)             *)

VS(s) == [i \in 1..Len(s) |-> <<s[i]>>]
DataList == <<
  << [z |-> VS(<<q(1,1), q(-1,2), q(2,1)>>), u |-> VS(<<q(1,1), q(0,1), q(-1,2)>>)],
     [z |-> VS(<<q(3,1), q(1,4)>>),          u |-> <<>>],
     [z |-> VS(<<q(0,1), q(1,1), q(1,1)>>),  u |-> VS(<<q(2,1), NaN, q(1,1)>>)] >>,
  << [z |-> VS(<<q(1,1), q(2,1)>>), u |-> <<>>],
     [z |-> VS(<<q(-1,2)>>),        u |-> <<>>] >>,
  << [z |-> VS(<<q(1,2), q(1,1), q(1,4)>>), u |-> VS(<<q(1,2), q(-1,4), q(0,1)>>)],
     [z |-> VS(<<q(1,4), q(1,8)>>),         u |-> VS(<<q(0,1), q(1,1)>>)] >>,
  << [z |-> VS(<<q(1,1), q(1,1), q(1,1)>>), u |-> <<>>],
     [z |-> VS(<<q(2,1)>>),                 u |-> <<>>] >>,
  << [z |-> VS(<<q(1,1), q(3,1)>>), u |-> <<>>] >>,
  << [z |-> VS(<<q(1,1), q(-1,2), q(2,1)>>), u |-> VS(<<q(1,1), q(0,1), q(-1,2)>>)],
     [z |-> VS(<<q(-1,1), q(1,2)>>),         u |-> <<>>] >>,
  << [z |-> VS(<<q(1,4), q(1,2), q(0,1)>>),  u |-> VS(<<q(1,4), q(1,2), q(-1,2)>>)],
     [z |-> VS(<<q(1,2)>>),                  u |-> VS(<<q(-1,2)>>)] >>,
  << [z |-> VS(<<q(1,1), q(2,1), q(1,1)>>),  u |-> <<>>] >> >>
(* arguments of direct predict/update calls: step index, state, covariance *)
PokeList == << <<[k |-> 2, x |-> V1(q(-1,1)), P |-> M1(q(1,2)), d |-> 1]>>,
               <<[k |-> 1, x |-> <<q(1,1), q(-1,1)>>, P |-> <<<<q(2,1), q(1,2)>>, <<q(1,2), q(1,1)>>>>, d |-> 1]>>,
               <<[k |-> 3, x |-> V1(q(1,4)), P |-> M1(q(1,1)), d |-> 1]>>,
               <<[k |-> 2, x |-> V1(q(1,1)), P |-> M1(q(0,1)), d |-> 1]>>,
               <<[k |-> 1, x |-> V1(q(1,1)), P |-> M1(q(1,1)), d |-> 1]>>,
               <<[k |-> 3, x |-> V1(q(2,1)), P |-> M1(q(1,1)), d |-> 1]>>,
               <<[k |-> 2, x |-> V1(q(1,2)), P |-> M1(q(1,4)), d |-> 1]>>,
               <<[k |-> 1, x |-> V1(q(0,1)), P |-> M1(q(2,1)), d |-> 1]>> >>

MCModel(r) == ModelList[r]
MCZ(r) == DataList[r[1]][r[2]].z
MCU(r) == DataList[r[1]][r[2]].u

(* References: what a fresh filter returns, tabulated once per constant.   *)
RefF == [i \in 1..Len(ModelList) |-> [d \in 1..Len(DataList[i]) |->
          FilterRun(ModelList[i], DataList[i][d].z, DataList[i][d].u)]]
RefS == [i \in 1..Len(ModelList) |-> [d \in 1..Len(DataList[i]) |->
          SmoothRun(ModelList[i], DataList[i][d].z, DataList[i][d].u)]]
PokeP(i, j) == LET p == PokeList[i][j] IN StepPredict(ModelList[i], DataList[i][p.d].u, p.k, p.x, p.P)
PokeU(i, j) == LET p == PokeList[i][j] IN StepUpdate(ModelList[i], DataList[i][p.d].z, p.k, p.x, p.P)
RefPP == [i \in 1..Len(ModelList) |-> [j \in 1..Len(PokeList[i]) |-> PokeP(i, j)]]
RefPU == [i \in 1..Len(ModelList) |-> [j \in 1..Len(PokeList[i]) |-> PokeU(i, j)]]

----------------------------------------------------------------------------
Init == LibInit /\ hist = <<>>

Log(c) == hist' = Append(hist, c)
Room == Len(hist) < MaxCalls
New(o) == \E m \in Kinds : Room /\ Construct(o, m) /\ Log([op |-> "new", o |-> o, m |-> m, d |-> 0])
Call(o) == /\ Room /\ Alive(o)
           /\ \E d \in 1..Len(DataList[objs[o].m]), op \in {"filter", "smooth"} :
                Begin(o, op, <<objs[o].m, d>>) /\ Log([op |-> op, o |-> o, m |-> objs[o].m, d |-> d])
PokePredict(o) == /\ Room /\ Alive(o)
                  /\ \E j \in 1..Len(PokeList[objs[o].m]) :
                       /\ DirectPredict(o, <<objs[o].m, j>>, RefPP[objs[o].m][j])
                       /\ Log([op |-> "predict", o |-> o, m |-> objs[o].m, d |-> j])
PokeUpdate(o) == /\ Room /\ Alive(o)
                 /\ \E j \in 1..Len(PokeList[objs[o].m]) :
                      /\ IF PokeU(objs[o].m, j).ok
                         THEN DirectUpdate(o, <<objs[o].m, j>>, PokeU(objs[o].m, j))
                         ELSE DirectRaise(o, <<objs[o].m, j>>)
                      /\ Log([op |-> "update", o |-> o, m |-> objs[o].m, d |-> j])
StepForward(o) == MoreFwd(o) /\ UNCHANGED hist
                  /\ LET r == TLCEval(RefPost(o)) IN IF r.ok THEN Forward(o, r) ELSE Raise(o)
EndFilter(o) == ReturnFilter(o) /\ UNCHANGED hist
TurnBack(o)  == StartBack(o) /\ UNCHANGED hist
StepBackward(o) == MoreBack(o) /\ UNCHANGED hist
                   /\ LET r == TLCEval(RefBack(o)) IN IF r.ok THEN Backward(o, r) ELSE Raise(o)
EndSmooth(o) == ReturnSmooth(o) /\ UNCHANGED hist

Next == \E o \in Obj : \/ New(o) \/ Call(o) \/ PokePredict(o) \/ PokeUpdate(o)
                       \/ StepForward(o) \/ EndFilter(o) \/ TurnBack(o)
                       \/ StepBackward(o) \/ EndSmooth(o)
Work == \E o \in Obj : StepForward(o) \/ EndFilter(o) \/ TurnBack(o) \/ StepBackward(o) \/ EndSmooth(o)
Spec == Init /\ [][Next]_hvars /\ WF_hvars(Work)

----------------------------------------------------------------------------
(* Results depend on the model and the arguments only. *)
Expected(m, l) ==
  IF l.op = "filter" THEN RefF[m][l.d[2]]
  ELSE IF l.op = "smooth" THEN RefS[m][l.d[2]]
  ELSE IF l.op = "predict" THEN <<RefPP[m][l.d[2]]>>
  ELSE <<RefPU[m][l.d[2]]>>
RunOkOrPrior(e) == \A k \in 1..Len(e) : "ok" \in DOMAIN e[k] => e[k].ok
ResultsFunctional ==
  \A o \in Obj : last[o].op # "none" =>
    LET e == Expected(objs[o].m, last[o])
    IN IF last[o].ok
       THEN /\ RunOkOrPrior(e)
            /\ IF last[o].op \in {"filter", "smooth"}
               THEN /\ Len(last[o].res) = Len(e)
                    /\ \A k \in 1..Len(e) : last[o].res[k].x = e[k].x /\ last[o].res[k].P = e[k].P
               ELSE last[o].res.x = e[1].x /\ last[o].res.P = e[1].P
       ELSE ~RunOk(e)

(* The gain log is the concatenation of the reference gains of the calls   *)
(* in the history (plus the steps of the call in progress).                *)
RECURSIVE OkGains(_)
OkGains(run) == IF run = <<>> \/ ~run[1].ok THEN <<>> ELSE <<run[1].K>> \o OkGains(Tail(run))
CallGains(c) == IF c.op \in {"filter", "smooth"} THEN OkGains(RefF[c.m][c.d])
                ELSE IF c.op = "update" THEN OkGains(<<RefPU[c.m][c.d]>>) ELSE <<>>
RECURSIVE GainsOf(_, _)
GainsOf(h, o) == IF h = <<>> THEN <<>>
                 ELSE (IF h[1].o = o THEN CallGains(h[1]) ELSE <<>>) \o GainsOf(Tail(h), o)
IsPre(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
GainLog == \A o \in Obj :
             LET g == TLCEval(GainsOf(hist, o))
             IN IF fr[o].op = "idle" \/ InBack(o) THEN objs[o].gains = g
                ELSE /\ IsPre(objs[o].gains, g)
                     /\ Len(objs[o].gains) >= Len(g) - Len(ZOf(fr[o].d))
GainsAppendOnly == [][\A o \in Obj : Alive(o) => IsPre(objs[o].gains, objs'[o].gains)]_hvars
ModelFixed == [][\A o \in Obj : Alive(o) => objs'[o].m = objs[o].m]_hvars
(* A step of one object leaves the others alone. *)
Isolation == [][\E o \in Obj : \A p \in Obj \ {o} :
                  objs'[p] = objs[p] /\ fr'[p] = fr[p] /\ last'[p] = last[p]]_hvars
(* Every call ends. *)
CallsEnd == \A o \in Obj : (fr[o].op # "idle") ~> (fr[o].op = "idle")

(* Smoothing returns the filtered estimate at the last step, unchanged. *)
SmoothLast == \A o \in Obj : InBack(o) => fr[o].acc[Len(fr[o].acc)] = fr[o].run[Len(fr[o].run)]

(* Export of the explored API histories, for replay against the code. *)
Quiet == \A o \in Obj : fr[o].op = "idle"
EmitModels == (Emit /\ hist = <<>>) =>
  PrintT("EXPORT " \o ToJson([models |-> ModelList, data |-> DataList, pokes |-> PokeList]))
EmitScripts == (Emit /\ Quiet /\ Len(hist) = MaxCalls /\ \A o \in Obj : Alive(o)) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
