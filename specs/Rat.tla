-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Arithmetic over the reals.  The definitions below are the meaning of    *)
(* these operators; TLC cannot evaluate module Reals, so it runs exact     *)
(* rational arithmetic instead (java/tlc2/module/Rat.java).  Every IEEE    *)
(* floating point number is a rational, so a recorded number enters the    *)
(* specification without rounding: R("0x1.8p+1") is 3, R("2/3") is 2/3.    *)
(***************************************************************************)
EXTENDS Reals, Sequences

R(s)      == CHOOSE x \in Real : TRUE    \* the number that the literal s denotes
RArr(a)   == a                           \* the same, for nested tuples of literals
RAdd(a,b) == a + b
RSub(a,b) == a - b
RMul(a,b) == a * b
RDiv(a,b) == a / b
RNeg(a)   == 0 - a
RLe(a,b)  == a <= b
RLt(a,b)  == a < b
REq(a,b)  == a = b
RAbs(a)   == IF RLt(a, 0) THEN RNeg(a) ELSE a
RMax(a,b) == IF RLe(b, a) THEN a ELSE b
RMin(a,b) == IF RLe(a, b) THEN a ELSE b
RFloor(a) == CHOOSE i \in Int : RLe(i, a) /\ RLt(a, i + 1)
RPow(a,k) == a ^ k
RECURSIVE RSum(_), RMaxAbs(_), CSum(_)
RSum(s)   == IF s = << >> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(p,q) == RSum([i \in DOMAIN p |-> RMul(p[i], q[i])])
RMaxAbs(s) == IF s = << >> THEN 0 ELSE RMax(RAbs(Head(s)), RMaxAbs(Tail(s)))
RRound(a,k) == RDiv(RFloor(RAdd(RMul(a, RPow(2, k)), 1/2)), RPow(2, k))   \* to k binary places
CMaxAbs(s) == RMaxAbs([i \in 1..2*Len(s) |-> IF i <= Len(s) THEN s[i][1] ELSE s[i - Len(s)][2]])
RStr(a)   == CHOOSE s : TRUE             \* a decimal rendering, for messages only

RSqrt(a,k) == CHOOSE x \in Real : /\ RLe(0, x) /\ RLe(RMul(x, x), a)          \* to k binary places
                                 /\ RLt(a, RMul(RAdd(x, RPow(2, -k)), RAdd(x, RPow(2, -k))))

\* nested tuples of numbers of any depth (a leaf is a real; arrays as recorded from the code)
IsLeaf(a) == a \in Real
RECURSIVE TShape(_, _), TDist(_, _), TMax(_), TLin(_, _), TRound(_, _)
TShape(a,b) == IF IsLeaf(a) \/ IsLeaf(b) THEN IsLeaf(a) /\ IsLeaf(b)
               ELSE Len(a) = Len(b) /\ \A i \in DOMAIN a : TShape(a[i], b[i])
TDist(a,b)  == IF IsLeaf(a) THEN RAbs(RSub(a, b)) ELSE RMaxAbs([i \in DOMAIN a |-> TDist(a[i], b[i])])
TMax(a)     == IF IsLeaf(a) THEN RAbs(a) ELSE RMaxAbs([i \in DOMAIN a |-> TMax(a[i])])
TLin(c,x)   == IF IsLeaf(x[1]) THEN RDot(c, x)                       \* sum_i c[i] x[i]
               ELSE [j \in DOMAIN x[1] |-> TLin(c, [i \in DOMAIN x |-> x[i][j]])]
TRound(a,k) == IF IsLeaf(a) THEN RRound(a, k) ELSE [i \in DOMAIN a |-> TRound(a[i], k)]

\* the solution X of the linear system A X = B (each B[i] a nested tuple), to k binary places
RSolve(A,B,k) == CHOOSE x : \A i \in DOMAIN B : RLe(TDist(TLin(A[i], x), B[i]), RPow(2, -k))

\* complex numbers are pairs <<re, im>>
CAdd(a,b)   == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a,b)   == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CMul(a,b)   == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])),
                 RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CScale(s,a) == <<RMul(s, a[1]), RMul(s, a[2])>>
CSum(s)     == IF s = << >> THEN <<0, 0>> ELSE CAdd(Head(s), CSum(Tail(s)))
CClose(a,b,tol) == /\ RLe(RAbs(RSub(a[1], b[1])), tol)
                   /\ RLe(RAbs(RSub(a[2], b[2])), tol)
=============================================================================
