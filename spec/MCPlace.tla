------------------------------ MODULE MCPlace ------------------------------
(***************************************************************************)
(* Optional arrays (U01).  An array is [kind, shape, cells]; the kinds of  *)
(* numeric types are float, int, unsigned, bool; only floats hold NaN.     *)
(* The machine makes an array, maybe passes it through the broadcasting    *)
(* helper (as given array or as the reference of a missing one), and asks  *)
(* whether the outcome counts as absent.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxDim, MaxLen, MaxCells, Emit
VARIABLES arr, given, out, absent
pvars == <<arr, given, out, absent>>

Kinds == {"f", "i", "u", "b"}
Vals(k) == IF k = "f" THEN {"nan", "num", "inf"} ELSE {"num"}
Shapes == UNION {[1..d -> 1..MaxLen] : d \in 0..MaxDim}
RECURSIVE Prod(_, _)
Prod(s, i) == IF i = 0 THEN 1 ELSE s[i] * Prod(s, i - 1)
Size(s) == Prod(s, Len(s))
AllNaN(a) == \A i \in 1..Len(a.cells) : a.cells[i] = "nan"
Broadcast(g, a, ref) == IF g THEN a ELSE [kind |-> "f", shape |-> ref.shape, cells |-> [i \in 1..Size(ref.shape) |-> "nan"]]

Nil == [kind |-> "?", shape |-> <<>>, cells |-> <<"num">>]
Init == arr = Nil /\ given = FALSE /\ out = Nil /\ absent = FALSE
Make == /\ arr = Nil
        /\ \E k \in Kinds, s \in Shapes :
             /\ Size(s) <= MaxCells
             /\ \E cs \in [1..Size(s) -> Vals(k)] : arr' = [kind |-> k, shape |-> s, cells |-> cs]
        /\ UNCHANGED <<given, out, absent>>
Pass == /\ arr # Nil /\ out = Nil
        /\ given' \in BOOLEAN
        /\ out' = Broadcast(given', arr, arr)
        /\ absent' = AllNaN(out')
        /\ UNCHANGED arr
Next == Make \/ Pass
Spec == Init /\ [][Next]_pvars

PlaceholderAbsent == (out # Nil /\ ~given) => absent /\ out.kind = "f" /\ out.shape = arr.shape
GivenUnchanged == (out # Nil /\ given) => out = arr
NumberNeverAbsent == (out # Nil /\ given /\ \E i \in 1..Len(arr.cells) : arr.cells[i] # "nan") => ~absent
EmitCases == (Emit /\ arr # Nil /\ out = Nil) => PrintT("CASE " \o ToJson(arr))
=============================================================================
