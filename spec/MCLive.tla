------------------------------- MODULE MCLive -------------------------------
(***************************************************************************)
(* Histories in which the owner of a filter object changes it between      *)
(* calls: other values in its model attributes, or an emptied gain log.    *)
(* Results must be functions of the model in force when a call starts.     *)
(***************************************************************************)
EXTENDS MCHist

(* models of the same shapes, between which an object may be switched *)
Other == [m \in 1..Len(ModelList) |-> CASE m = 1 -> 6 [] m = 6 -> 1 [] m = 3 -> 7 [] m = 7 -> 3
                                         [] m = 4 -> 8 [] m = 8 -> 4 [] OTHER -> 0]
Switch(o) == /\ Room /\ Alive(o) /\ Free(o) /\ Other[objs[o].m] # 0
             /\ Reassign(o, Other[objs[o].m])
             /\ Log([op |-> "set", o |-> o, m |-> Other[objs[o].m], d |-> 0])
Empty(o) == /\ Room /\ Alive(o) /\ Free(o) /\ objs[o].gains # <<>>
            /\ ClearGains(o)
            /\ Log([op |-> "clear", o |-> o, m |-> objs[o].m, d |-> 0])
LiveNext == Next \/ \E o \in Obj : Switch(o) \/ Empty(o)
LiveSpec == Init /\ [][LiveNext]_hvars /\ WF_hvars(Work)

RECURSIVE LiveGains(_, _)       \* the log since it was last emptied
LiveGains(h, o) ==
  IF h = <<>> THEN <<>>
  ELSE LET e == h[Len(h)]
           r == SubSeq(h, 1, Len(h) - 1)
       IN IF e.o # o \/ e.op = "set" THEN LiveGains(r, o)
          ELSE IF e.op = "clear" THEN <<>>
          ELSE LiveGains(r, o) \o CallGains(e)
LiveLog == \A o \in Obj :
             LET g == TLCEval(LiveGains(hist, o))
             IN IF fr[o].op = "idle" \/ InBack(o) THEN objs[o].gains = g
                ELSE /\ IsPre(objs[o].gains, g)
                     /\ Len(objs[o].gains) >= Len(g) - Len(ZOf(fr[o].d))
(* Only the owner changes a model, and never during a call. *)
OwnerOnly == [][\A o \in Obj : Alive(o) /\ objs'[o].m # objs[o].m =>
                  Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].op = "set" /\ fr[o].op = "idle"]_hvars
(* A run started after a switch never sees the model before it. *)
InForce == \A o \in Obj : fr[o].op # "idle" => fr[o].d[1] = objs[o].m
EmitLive == (Emit /\ Quiet /\ Len(hist) = MaxCalls /\ \A o \in Obj : Alive(o)
             /\ \E j \in 1..Len(hist) - 1 : hist[j].op \in {"set", "clear"}
             /\ hist[Len(hist)].op \notin {"set", "clear"}) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
