------------------------------ MODULE LinPure ------------------------------
(* Exact linear algebra over Rationals: vectors are sequences, matrices    *)
(* sequences of rows.  Definitions; see LinAlg.tla for the exported names. *)
EXTENDS Integers, Sequences, TLC, Rationals
\* TLCEval(v) = v; it makes TLC evaluate a function constructor once.

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN Zero ELSE RAdd(SumTo(f, k - 1), f[k])

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])

VAdd(v, w) == TLCEval([i \in 1..Len(v) |-> RAdd(v[i], w[i])])
VSub(v, w) == TLCEval([i \in 1..Len(v) |-> RSub(v[i], w[i])])
VScale(a, v) == TLCEval([i \in 1..Len(v) |-> RMul(a, v[i])])
Dot(v, w) == SumTo(TLCEval([i \in 1..Len(v) |-> RMul(v[i], w[i])]), Len(v))

MT(M) == TLCEval([j \in 1..Cols(M) |-> [i \in 1..Rows(M) |-> M[i][j]]])
MAdd(M, N) == TLCEval([i \in 1..Rows(M) |-> VAdd(M[i], N[i])])
MSub(M, N) == TLCEval([i \in 1..Rows(M) |-> VSub(M[i], N[i])])
MScale(a, M) == TLCEval([i \in 1..Rows(M) |-> VScale(a, M[i])])
MVec(M, v) == TLCEval([i \in 1..Rows(M) |-> Dot(M[i], v)])
MMul(M, N) == LET Nt == MT(N) IN TLCEval([i \in 1..Rows(M) |-> MVec(Nt, M[i])])
MId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])

Minor(M, r, c) ==
  TLCEval([i \in 1..(Rows(M) - 1) |->
    LET ii == IF i < r THEN i ELSE i + 1
    IN [j \in 1..(Cols(M) - 1) |-> M[ii][IF j < c THEN j ELSE j + 1]]])
RECURSIVE Det(_)
Det(M) ==
  IF Rows(M) = 0 THEN One
  ELSE SumTo(TLCEval([j \in 1..Rows(M) |->
               LET t == RMul(M[1][j], Det(Minor(M, 1, j)))
               IN IF j % 2 = 1 THEN t ELSE RNeg(t)]), Rows(M))
AllFin(M) == \A i \in 1..Rows(M) : \A j \in 1..Len(M[i]) : RFin(M[i][j])
VFin(v) == \A i \in 1..Len(v) : RFin(v[i])

(* Inverse by the adjugate; << >> when M is singular or not finite. *)
MInv(M) ==
  IF ~AllFin(M) THEN <<>>
  ELSE LET d == Det(M)
       IN IF d = Zero THEN <<>>
          ELSE TLCEval([i \in 1..Rows(M) |-> [j \in 1..Rows(M) |->
                 LET t == RDiv(Det(Minor(M, j, i)), d)
                 IN IF (i + j) % 2 = 0 THEN t ELSE RNeg(t)]])

(* Positive semidefiniteness of the symmetric matrix M, by elimination. *)
Schur(M) ==
  TLCEval([i \in 1..(Rows(M) - 1) |-> [j \in 1..(Rows(M) - 1) |->
     RSub(M[i + 1][j + 1], RDiv(RMul(M[i + 1][1], M[1][j + 1]), M[1][1]))]])
RECURSIVE PSDRec(_)
PSDRec(M) ==
  IF Rows(M) = 0 THEN TRUE
  ELSE IF RLt(M[1][1], Zero) THEN FALSE
  ELSE IF M[1][1] = Zero
       THEN /\ \A j \in 1..Rows(M) : M[1][j] = Zero
            /\ PSDRec(Minor(M, 1, 1))
       ELSE PSDRec(Schur(M))
PSD(M) == AllFin(M) /\ PSDRec(M)

(* Entrywise magnitudes, rounded up to powers of two. *)
VUp(v) == TLCEval([i \in 1..Len(v) |-> RUp(v[i])])
MUp(M) == TLCEval([i \in 1..Rows(M) |-> VUp(M[i])])

RECURSIVE VMaxRec(_, _)
VMaxRec(v, k) == IF k = 0 THEN Zero ELSE RMax(VMaxRec(v, k - 1), RAbs(v[k]))
VMax(v) == VMaxRec(v, Len(v))
MMax(M) == VMax(TLCEval([i \in 1..Rows(M) |-> VMax(M[i])]))

----------------------------------------------------------------------------
(* Polynomial maps.  A map is a sequence of components, a component a      *)
(* sequence of monomials [c |-> rational, e |-> exponents] over y = x \o u *)
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN One ELSE RMul(a, RPow(a, k - 1))
RECURSIVE MonoAt(_, _, _, _)
MonoAt(acc, e, y, i) == IF i > Len(e) THEN acc
                        ELSE IF e[i] = 0 THEN MonoAt(acc, e, y, i + 1)
                        ELSE IF i > Len(y) THEN Zero      \* an absent control counts as zero
                        ELSE MonoAt(TLCEval(RMul(acc, RPow(y[i], e[i]))), e, y, i + 1)
RECURSIVE PolyAt(_, _, _, _)
PolyAt(acc, p, y, i) == IF i > Len(p) THEN acc
                        ELSE PolyAt(TLCEval(RAdd(acc, MonoAt(p[i].c, p[i].e, y, 1))), p, y, i + 1)
PolyVal(p, y) == PolyAt(Zero, p, y, 1)
DMono(mo, j) == IF mo.e[j] = 0 THEN [c |-> Zero, e |-> mo.e]
                ELSE [c |-> RMul(RInt(mo.e[j]), mo.c), e |-> [mo.e EXCEPT ![j] = @ - 1]]
PolyD(p, j) == [i \in 1..Len(p) |-> DMono(p[i], j)]
MapVal(F, y) == TLCEval([i \in 1..Len(F) |-> PolyVal(F[i], y)])
MapJac(F, y, n) ==                   \* n leading variables are the state
  TLCEval([i \in 1..Len(F) |-> [j \in 1..n |-> PolyVal(PolyD(F[i], j), y)]])
=============================================================================
