------------------------------- MODULE LinAlg -------------------------------
(* Exact linear algebra under the names the specification uses.  LinPure   *)
(* gives the definitions; java/LinAlg.java overrides them.                 *)
EXTENDS Integers, Sequences, Rationals
LOCAL P == INSTANCE LinPure

VAdd(v, w)   == P!VAdd(v, w)
VSub(v, w)   == P!VSub(v, w)
VScale(a, v) == P!VScale(a, v)
Dot(v, w)    == P!Dot(v, w)
VMax(v)      == P!VMax(v)
VFin(v)      == P!VFin(v)
MT(M)        == P!MT(M)
MAdd(M, N)   == P!MAdd(M, N)
MSub(M, N)   == P!MSub(M, N)
MScale(a, M) == P!MScale(a, M)
MVec(M, v)   == P!MVec(M, v)
MMul(M, N)   == P!MMul(M, N)
MId(n)       == P!MId(n)
MInv(M)      == P!MInv(M)
MFin(M)      == P!AllFin(M)
PSD(M)       == P!PSD(M)
MMax(M)      == P!MMax(M)
VUp(v)       == P!VUp(v)
MUp(M)       == P!MUp(M)
PolyD(p, j)  == P!PolyD(p, j)
PolyVal(p, y) == P!PolyVal(p, y)
MapVal(F, y) == P!MapVal(F, y)
MapJac(F, y, n) == P!MapJac(F, y, n)
=============================================================================
