------------------------------ MODULE RatCheck ------------------------------
(* Compares the exported operators (overridden in Java) with their TLA+     *)
(* definitions on a grid of rationals (including multi-limb ones) and on    *)
(* small matrices.  Every assumption is evaluated by TLC at start-up.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, LinAlg
P == INSTANCE RatPure
L == INSTANCE LinPure

Big == P!Mul(P!Frac(2147483647, 65537), P!Frac(1000003, 2147483629))
Huge == P!Div(P!Mul(Big, P!Mul(Big, Big)), P!Frac(32768, 3))
G == {NaN, Zero, One, Big, P!Neg(Big), P!Frac(-3, 7), P!Frac(2147483646, 98304),
      P!Frac(-32769, 32768), P!Frac(1, 32768), P!Div(P!Mul(Big, Big), P!Frac(32768, 3))}
ASSUME OpsAgree ==
  \A a, b \in G :
    /\ RAdd(a, b) = P!Add(a, b)   /\ RSub(a, b) = P!Sub(a, b)
    /\ RMul(a, b) = P!Mul(a, b)   /\ RDiv(a, b) = P!Div(a, b)
    /\ (RLe(a, b) <=> P!Le(a, b)) /\ (RLt(a, b) <=> P!Lt(a, b))
    /\ RMax(a, b) = P!Max(a, b)
ASSUME UnaryAgree == \A a \in G : RUp(a) = P!Up(a) /\ RNeg(a) = P!Neg(a) /\ RAbs(a) = P!Abs(a) /\ (RFin(a) <=> P!Fin(a))
ASSUME FracAgree == \A i \in {-32769, -12, 0, 5, 65536}, j \in {-6, 1, 9, 40000} : RFrac(i, j) = P!Frac(i, j) /\ RInt(i) = P!Frac(i, 1)

(* Field laws on the definitions themselves. *)
ASSUME Laws ==
  \A a, b \in G \ {NaN} :
    /\ P!Add(a, b) = P!Add(b, a) /\ P!Mul(a, b) = P!Mul(b, a)
    /\ P!Sub(P!Add(a, b), b) = a
    /\ (b # Zero => P!Mul(P!Div(a, b), b) = a)

E3 == {Zero, One, P!Frac(-2, 3)}
M2 == {<<<<a, b>>, <<c, d>>>> : a, b, c, d \in E3}
M3 == { <<<<One, P!Frac(1, 2), Zero>>, <<P!Frac(1, 2), P!Frac(1, 3), a>>, <<Zero, a, b>>>> : a, b \in E3 }
        \cup { <<<<a, One, b>>, <<Zero, a, P!Frac(5, 7)>>, <<b, b, a>>>> : a, b \in E3 }
R23 == { <<<<a, Zero, b>>, <<One, b, a>>>> : a, b \in E3 }
ASSUME MatAgree2 ==
  \A M \in M2 :
    /\ MInv(M) = L!MInv(M) /\ (MInv(M) # <<>> => MMul(M, MInv(M)) = MId(2))
    /\ MUp(M) = L!MUp(M) /\ VUp(M[1]) = L!VUp(M[1])
    /\ MT(M) = L!MT(M) /\ MMax(M) = L!MMax(M) /\ MScale(M[1][2], M) = L!MScale(M[1][2], M)
    /\ (M[1][2] = M[2][1] => (PSD(M) <=> L!PSD(M)))
    /\ \A N \in {<<<<One, Zero>>, <<P!Frac(1, 2), One>>>>, <<<<Zero, One>>, <<One, Big>>>>} :
         MMul(M, N) = L!MMul(M, N) /\ MAdd(M, N) = L!MAdd(M, N) /\ MSub(M, N) = L!MSub(M, N)
ASSUME MatAgree3 ==
  \A M \in M3 :
    /\ MInv(M) = L!MInv(M)
    /\ (M = MT(M) => (PSD(M) <=> L!PSD(M)))
    /\ \A N \in R23 : /\ MMul(N, M) = L!MMul(N, M) /\ MT(N) = L!MT(N)
                      /\ MVec(N, M[1]) = L!MVec(N, M[1]) /\ Dot(N[1], M[2]) = L!Dot(N[1], M[2])
                      /\ VAdd(N[1], M[2]) = L!VAdd(N[1], M[2]) /\ VSub(N[1], M[2]) = L!VSub(N[1], M[2])
                      /\ VScale(M[2][3], N[1]) = L!VScale(M[2][3], N[1]) /\ VMax(N[1]) = L!VMax(N[1])
M4(a, b) == <<<<Zero, a, One, b>>, <<One, Zero, P!Frac(1, 3), a>>, <<a, One, Big, Zero>>, <<b, P!Frac(-5, 7), One, Zero>>>>
ASSUME MatAgree4 == \A a, b \in E3 : /\ MInv(M4(a, b)) = L!MInv(M4(a, b))
                                    /\ LET S == MMul(M4(a, b), MT(M4(a, b)))
                                           D == MSub(S, MScale(P!Frac(1, 2), MId(4)))
                                       IN /\ MInv(S) = L!MInv(S) /\ PSD(S) /\ L!PSD(S) /\ (PSD(D) <=> L!PSD(D))
Mon(a, e1, e2, e3) == [c |-> a, e |-> <<e1, e2, e3>>]
Pols == {<<>>, <<Mon(P!Frac(-2, 3), 0, 0, 0)>>, <<Mon(One, 2, 1, 0), Mon(P!Frac(5, 7), 0, 3, 0), Mon(Big, 1, 0, 0)>>,
         <<Mon(Zero, 1, 1, 0), Mon(P!Frac(-1, 2), 1, 0, 2), Mon(One, 0, 0, 1)>>}
Pts == {<<P!Frac(1, 2), P!Frac(-7, 3)>>, <<Zero, Big>>, <<P!Frac(1, 2), P!Frac(-7, 3), P!Frac(3, 4)>>, <<Zero, Zero, Big>>, <<NaN, One, One>>}
ASSUME PolyAgree ==
  \A p, q \in Pols, y \in Pts :
    /\ PolyVal(p, y) = L!PolyVal(p, y)
    /\ MapVal(<<p, q>>, y) = L!MapVal(<<p, q>>, y)
    /\ MapJac(<<p, q>>, y, 2) = L!MapJac(<<p, q>>, y, 2)
ASSUME NaNMat == LET M == <<<<One, NaN>>, <<NaN, One>>>>
                 IN /\ MInv(M) = <<>> /\ L!MInv(M) = <<>> /\ ~PSD(M) /\ ~L!PSD(M) /\ ~MFin(M) /\ ~VFin(M[1])
                    /\ MMul(M, M) = L!MMul(M, M) /\ MMax(M) = NaN

VARIABLE x
Init == x = 0
Next == x' = x
Spec == Init /\ [][Next]_x
=============================================================================
