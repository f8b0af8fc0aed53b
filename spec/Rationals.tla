----------------------------- MODULE Rationals -----------------------------
(* Exact rationals under the names the specification uses.  The right-hand *)
(* sides are the definitions (RatPure); java/Rationals.java overrides them *)
(* with BigInteger arithmetic when it is on TLC's class path.              *)
LOCAL P == INSTANCE RatPure

NaN  == P!NaN
Zero == P!Zero
One  == P!One
RFin(a)     == P!Fin(a)
RFrac(i, j) == P!Frac(i, j)
RNeg(a)     == P!Neg(a)
RAbs(a)     == P!Abs(a)
RAdd(a, b)  == P!Add(a, b)
RSub(a, b)  == P!Sub(a, b)
RMul(a, b)  == P!Mul(a, b)
RDiv(a, b)  == P!Div(a, b)
RLe(a, b)   == P!Le(a, b)
RLt(a, b)   == P!Lt(a, b)
RMax(a, b)  == P!Max(a, b)
RInt(i)     == P!Frac(i, 1)
RUp(a)      == P!Up(a)
=============================================================================
