----------------------------- MODULE KalmanLib -----------------------------
(***************************************************************************)
(* kalmankit as a state machine: a set of filter objects, each with a      *)
(* model and an append-only log of gains, and API calls on them.  A call   *)
(* of filter/smooth is a frame private to the call: it walks forward one   *)
(* observation at a time (predict, then update, then the gain is logged)   *)
(* and, for smooth, backward one step at a time.  Calls on different       *)
(* objects interleave freely; an object serves one call at a time.         *)
(*                                                                         *)
(* The actions take the record they adopt (the mean, covariance and gain   *)
(* of a step) as a parameter.  The model checking configurations pass the  *)
(* exact value computed by Gauss.tla; the trace specification passes what  *)
(* the real code returned and judges it against the exact value.           *)
(***************************************************************************)
EXTENDS Gauss

CONSTANTS Obj,            \* object identities
          Model(_),       \* model reference -> model record
          ZOf(_), UOf(_)  \* data reference -> observation / control sequences

VARIABLES objs,           \* objs[o] = [born, m: model reference, gains: Seq(matrix)]
          fr,             \* fr[o]: frame of the call in progress
          last            \* last[o]: what the last completed call returned
vars == <<objs, fr, last>>

Idle == [op |-> "idle"]
Unborn == [born |-> FALSE, m |-> 0, gains |-> <<>>]
Nothing == [op |-> "none"]

LibInit == /\ objs = [o \in Obj |-> Unborn]
           /\ fr = [o \in Obj |-> Idle]
           /\ last = [o \in Obj |-> Nothing]

Alive(o) == objs[o].born
Free(o)  == Alive(o) /\ fr[o].op = "idle"

(* Constructor *)
Construct(o, m) ==
  /\ ~Alive(o)
  /\ objs' = [objs EXCEPT ![o] = [born |-> TRUE, m |-> m, gains |-> <<>>]]
  /\ UNCHANGED <<fr, last>>

(* filter() / smooth() entry *)
Begin(o, op, d) ==
  /\ Free(o) /\ op \in {"filter", "smooth"}
  /\ fr' = [fr EXCEPT ![o] = [op |-> op, d |-> d, ph |-> "fwd", run |-> <<>>, acc |-> <<>>]]
  /\ UNCHANGED <<objs, last>>

(* one iteration of the forward loop *)
FK(o)  == Len(fr[o].run) + 1                              \* index of the step to do
FX(o)  == IF fr[o].run = <<>> THEN Model(objs[o].m).x0 ELSE fr[o].run[Len(fr[o].run)].x
FP(o)  == IF fr[o].run = <<>> THEN Model(objs[o].m).P0 ELSE fr[o].run[Len(fr[o].run)].P
InFwd(o) == fr[o].op # "idle" /\ fr[o].ph = "fwd"
MoreFwd(o) == InFwd(o) /\ FK(o) <= Len(ZOf(fr[o].d))
RefPrior(o) == StepPredict(Model(objs[o].m), UOf(fr[o].d), FK(o), FX(o), FP(o))
RefPost(o)  == LET p == TLCEval(RefPrior(o))
               IN StepUpdate(Model(objs[o].m), ZOf(fr[o].d), FK(o), p.x, p.P)
Forward(o, r) ==
  /\ MoreFwd(o)
  /\ fr' = [fr EXCEPT ![o].run = Append(@, [x |-> r.x, P |-> r.P])]
  /\ objs' = [objs EXCEPT ![o].gains = Append(@, r.K)]
  /\ UNCHANGED last

(* end of the forward loop *)
ReturnFilter(o) ==
  /\ InFwd(o) /\ ~MoreFwd(o) /\ fr[o].op = "filter"
  /\ last' = [last EXCEPT ![o] = [op |-> "filter", d |-> fr[o].d, ok |-> TRUE, res |-> fr[o].run]]
  /\ fr' = [fr EXCEPT ![o] = Idle]
  /\ UNCHANGED objs
StartBack(o) ==
  /\ InFwd(o) /\ ~MoreFwd(o) /\ fr[o].op = "smooth" /\ fr[o].run # <<>>
  /\ fr' = [fr EXCEPT ![o].ph = "back", ![o].acc = <<fr[o].run[Len(fr[o].run)]>>]
  /\ UNCHANGED <<objs, last>>

(* one iteration of the backward loop *)
InBack(o) == fr[o].op # "idle" /\ fr[o].ph = "back"
BK(o) == Len(fr[o].run) - Len(fr[o].acc)                  \* index of the step to do
MoreBack(o) == InBack(o) /\ BK(o) >= 1
RefBack(o) == LET f == fr[o].run[BK(o)]
              IN StepBack(Model(objs[o].m), UOf(fr[o].d), BK(o), f.x, f.P,
                          fr[o].acc[1].x, fr[o].acc[1].P)
Backward(o, r) ==
  /\ MoreBack(o)
  /\ fr' = [fr EXCEPT ![o].acc = <<[x |-> r.x, P |-> r.P]>> \o @]
  /\ UNCHANGED <<objs, last>>
ReturnSmooth(o) ==
  /\ InBack(o) /\ ~MoreBack(o)
  /\ last' = [last EXCEPT ![o] = [op |-> "smooth", d |-> fr[o].d, ok |-> TRUE, res |-> fr[o].acc]]
  /\ fr' = [fr EXCEPT ![o] = Idle]
  /\ UNCHANGED objs

(* a linear-algebra error leaves the frame; the gains logged so far stay *)
Raise(o) ==
  /\ fr[o].op # "idle"
  /\ last' = [last EXCEPT ![o] = [op |-> fr[o].op, d |-> fr[o].d, ok |-> FALSE, res |-> <<>>]]
  /\ fr' = [fr EXCEPT ![o] = Idle]
  /\ UNCHANGED objs

(* predict() and update() called directly *)
DirectPredict(o, d, r) ==
  /\ Free(o)
  /\ last' = [last EXCEPT ![o] = [op |-> "predict", d |-> d, ok |-> TRUE, res |-> r]]
  /\ UNCHANGED <<objs, fr>>
DirectUpdate(o, d, r) ==
  /\ Free(o)
  /\ last' = [last EXCEPT ![o] = [op |-> "update", d |-> d, ok |-> TRUE, res |-> [x |-> r.x, P |-> r.P]]]
  /\ objs' = [objs EXCEPT ![o].gains = Append(@, r.K)]
  /\ UNCHANGED fr
DirectRaise(o, d) ==
  /\ Free(o)
  /\ last' = [last EXCEPT ![o] = [op |-> "update", d |-> d, ok |-> FALSE, res |-> <<>>]]
  /\ UNCHANGED <<objs, fr>>

(* The owner of an object changes it between calls: other values in its     *)
(* model attributes (replaced, or overwritten in place), or an emptied log. *)
Reassign(o, m) ==
  /\ Free(o)
  /\ objs' = [objs EXCEPT ![o].m = m]
  /\ last' = [last EXCEPT ![o] = Nothing]
  /\ UNCHANGED fr
ClearGains(o) ==
  /\ Free(o)
  /\ objs' = [objs EXCEPT ![o].gains = <<>>]
  /\ UNCHANGED <<fr, last>>
=============================================================================
