------------------------------ MODULE Forcing -------------------------------
(***************************************************************************)
(* How the demo programs of sustained turbulence keep it going.            *)
(*                                                                         *)
(* Homogeneous turbulence: after every step the modes 0 < |k| <= kf are    *)
(* scaled by one real factor that restores the target energy; every other  *)
(* mode stays as it is, the mean stays zero.  It starts from a solenoidal  *)
(* field of that energy.                                                   *)
(* Channel turbulence: after every step the first basis function of the    *)
(* mean streamwise velocity is changed so that the flux is as prescribed;  *)
(* no other coefficient changes.                                           *)
(***************************************************************************)
EXTENDS Fourier

(* ---- homogeneous -------------------------------------------------------- *)
\* twice the kinetic energy: sum over the full spectrum of |u|^2
Weight(n, h) == LET k3 == Mode(n, h)[3] IN IF k3 = 0 \/ 2*k3 = n[3] THEN R(1) ELSE R(2)
Sq(z) == RAdd(RMul(z[1], z[1]), RMul(z[2], z[2]))
Energy2Of(n, u, S) == RSum([c \in 1..3 |-> RSum([h \in 1..Size(n) |-> IF S[h] THEN RMul(Weight(n, h), Sq(u[c][h])) ELSE R(0)])])
All(n) == [h \in 1..Size(n) |-> TRUE]
Forced(kk, kf) == TLCEval([h \in 1..Len(kk) |-> RLt(R(0), K2(kk[h])) /\ RLe(K2(kk[h]), RMul(kf, kf))])
IsMean(kk, h) == REq(K2(kk[h]), R(0))
\* the velocity of a vorticity field, and the other way round
CurlOf(kk, u) == Curl(kk, u)
VelocityOf(kk, w) == LET c == Curl(kk, w) IN
   TLCEval([i \in 1..3 |-> [h \in 1..Len(c[i]) |-> CScale(RDiv(R(1), K2n(kk[h])), c[i][h])]])
NoMean(kk, u) == TLCEval([i \in 1..3 |-> [h \in 1..Len(u[i]) |-> IF IsMean(kk, h) THEN C0 ELSE u[i][h]]])
\* the state after forcing; the factor is the root of (target - energy above) / energy of the forced modes
Factor(n, kk, kf, target, u) == LET F == Forced(kk, kf) lo == Energy2Of(n, u, F) all == Energy2Of(n, u, All(n)) IN
   RSqrt(RDiv(RSub(target, RSub(all, lo)), lo), 90)
Force(n, kk, kf, target, u0) == LET u == NoMean(kk, u0) F == Forced(kk, kf) a == Factor(n, kk, kf, target, u) IN
   TLCEval([i \in 1..3 |-> [h \in 1..Len(u[i]) |-> IF F[h] THEN CScale(a, u[i][h]) ELSE u[i][h]]])
Start(n, kk, u, tol) ==
   LET m == RMax(FMax(u[1]), RMax(FMax(u[2]), FMax(u[3])))  km == RSum([i \in 1..3 |-> RMaxAbs([h \in 1..Len(kk) |-> kk[h][i]])]) IN
   (IF RLe(FMax(Div(kk, u)), RMul(tol, RMul(m, km))) THEN {} ELSE {"not-solenoidal"})
   \cup (IF \A h \in 1..Size(n) : IsMean(kk, h) => \A i \in 1..3 : IsC0(u[i][h]) THEN {} ELSE {"mean"})
   \cup (IF \A h \in 1..Size(n) : OnNyquist(n, Mode(n, h)) => \A i \in 1..3 : RLe(CMaxAbs(<< u[i][h] >>), RMul(tol, m)) THEN {} ELSE {"nyquist"})
   \cup (IF \A h \in 1..Size(n) : Mode(n, h)[3] = 0 => \A i \in 1..3 :
             CClose(u[i][HIdx(n, Neg(Mode(n, h)))], Conj(u[i][h]), RMul(tol, m)) THEN {} ELSE {"not-real"})
   \cup (IF RLt(R(0), m) THEN {} ELSE {"nothing"})

(* ---- channel -------------------------------------------------------------- *)
\* integral over the channel of the field with mean coefficients a (basis T_k - T_k+2)
IntCheb(m) == IF m % 2 = 1 THEN R(0) ELSE RDiv(R(2), R(1 - m*m))
Flux(area, a) == RMul(area, RSum([k \in 1..Len(a) |-> RMul(a[k][1], RSub(IntCheb(k-1), IntCheb(k+1)))]))
=============================================================================
