------------------------------- MODULE MCStop -------------------------------
(***************************************************************************)
(* Histories in which something outside makes calls fail: an observation   *)
(* that does not fit, a callback of the model that raises.  It may happen  *)
(* at any step of a run, forward or backward.  The entry of such a call    *)
(* in the history carries k: the forward step it failed at, or 0 for the   *)
(* backward pass.  The log holds the gains of the steps before, and what   *)
(* comes afterwards is as if the call had never been made.                 *)
(***************************************************************************)
EXTENDS MCHist

Stopped(c) == "k" \in DOMAIN c
(* the call in progress on o is the last entry of o *)
RECURSIVE LastOf(_, _)
LastOf(h, o) == IF h[Len(h)].o = o THEN Len(h) ELSE LastOf(SubSeq(h, 1, Len(h) - 1), o)
Mark(o, k) == LET j == LastOf(hist, o)
                  e == hist[j]
              IN hist' = [hist EXCEPT ![j] = [op |-> e.op, o |-> e.o, m |-> e.m, d |-> e.d, k |-> k]]
StopForward(o)  == MoreFwd(o) /\ Raise(o) /\ Mark(o, FK(o))
StopBackward(o) == MoreBack(o) /\ Raise(o) /\ Mark(o, 0)
StopUpdate(o) == /\ Room /\ Alive(o)
                 /\ \E j \in 1..Len(PokeList[objs[o].m]) :
                      /\ DirectRaise(o, <<objs[o].m, j>>)
                      /\ Log([op |-> "update", o |-> o, m |-> objs[o].m, d |-> j, k |-> 1])
StopNext == Next \/ \E o \in Obj : StopForward(o) \/ StopBackward(o) \/ StopUpdate(o)
StopSpec == Init /\ [][StopNext]_hvars /\ WF_hvars(Work)

StopFunctional ==
  \A o \in Obj : last[o].op # "none" =>
    LET e == Expected(objs[o].m, last[o])
    IN IF last[o].ok
       THEN /\ RunOkOrPrior(e)
            /\ IF last[o].op \in {"filter", "smooth"}
               THEN /\ Len(last[o].res) = Len(e)
                    /\ \A k \in 1..Len(e) : last[o].res[k].x = e[k].x /\ last[o].res[k].P = e[k].P
               ELSE last[o].res.x = e[1].x /\ last[o].res.P = e[1].P
       ELSE ~RunOk(e) \/ \E j \in 1..Len(hist) : hist[j].o = o /\ hist[j].op = last[o].op /\ Stopped(hist[j])

StopGains(e) == IF ~Stopped(e) \/ e.k = 0 THEN CallGains(e) ELSE SubSeq(CallGains(e), 1, e.k - 1)
RECURSIVE StopGainsOf(_, _)
StopGainsOf(h, o) == IF h = <<>> THEN <<>>
                     ELSE (IF h[1].o = o THEN StopGains(h[1]) ELSE <<>>) \o StopGainsOf(Tail(h), o)
StopLog == \A o \in Obj :
             LET g == TLCEval(StopGainsOf(hist, o))
             IN IF fr[o].op = "idle" \/ InBack(o) THEN objs[o].gains = g
                ELSE /\ IsPre(objs[o].gains, g)
                     /\ Len(objs[o].gains) >= Len(g) - Len(ZOf(fr[o].d))
(* A call that failed leaves the object as a call that was never made, but for the log. *)
Forgotten == \A o \in Obj : fr[o].op = "idle" => fr[o] = Idle
EmitStop == (Emit /\ Quiet /\ Len(hist) = MaxCalls /\ \A o \in Obj : Alive(o)
             /\ \E j \in 1..Len(hist) - 1 : Stopped(hist[j])
             /\ ~Stopped(hist[Len(hist)])) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
