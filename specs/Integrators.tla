---------------------------- MODULE Integrators ----------------------------
(***************************************************************************)
(* The explicit integrators as their published tableaux.  A step is        *)
(* described by the sequence of right-hand side evaluations it makes (the  *)
(* state it asked for, the tendency it received) and the state it ends in. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat

Lin(c, x) == TLCEval(TLin(c, x))

(* tableaux: A[i] are the weights of earlier stages in stage i, b the final ones *)
RK4T   == [ A |-> << << >>, <<R("1/2")>>, <<R(0), R("1/2")>>, <<R(0), R(0), R(1)>> >>,
            b |-> << R("1/6"), R("1/3"), R("1/3"), R("1/6") >> ]
EulerT == [ A |-> << << >> >>, b |-> << R(1) >> ]
\* Bogacki & Shampine (1996), 5(4), first same as last
BS5T == [ A |-> RArr(<< << >>,
      <<"1/6">>,
      <<"2/27", "4/27">>,
      <<"183/1372", "-162/343", "1053/1372">>,
      <<"68/297", "-4/11", "42/143", "1960/3861">>,
      <<"597/22528", "81/352", "63099/585728", "58653/366080", "4617/20480">>,
      <<"174197/959244", "-30942/79937", "8152137/19744439", "666106/1039181", "-29421/29068", "482048/414219">>,
      <<"587/8064", "0", "4440339/15491840", "24353/124800", "387/44800", "2152/5985", "7267/94080">> >>),
   b  |-> RArr(<<"587/8064", "0", "4440339/15491840", "24353/124800", "387/44800", "2152/5985", "7267/94080", "0">>),
   bh |-> RArr(<<"2479/34992", "0", "123/416", "612941/3411720", "43/1440", "2272/6561", "79937/1113912", "3293/556956">>) ]

\* state of stage i when stages 1..i-1 returned f[1..i-1]
Stage(T, dt, u, f, i) == Lin(<<R(1)>> \o [j \in 1..(i-1) |-> RMul(dt, T.A[i][j])], <<u>> \o SubSeq(f, 1, i-1))
Final(T, dt, u, f)    == Lin(<<R(1)>> \o [j \in 1..Len(T.b) |-> RMul(dt, T.b[j])], <<u>> \o f)
\* embedded error estimate of a trial
ErrVec(T, dt, f)      == Lin([j \in 1..Len(T.b) |-> RMul(dt, RSub(T.b[j], T.bh[j]))], f)

\* a consistency check of the tableaux that TLC evaluates: row sums and order conditions
Ones(w) == RSum(w)
RowC(T) == [i \in 1..Len(T.A) |-> IF T.A[i] = << >> THEN R(0) ELSE RSum(T.A[i])]
ASSUME REq(Ones(RK4T.b), R(1)) /\ REq(RDot(RK4T.b, RowC(RK4T)), R("1/2"))
ASSUME REq(Ones(BS5T.b), R(1)) /\ REq(RDot(BS5T.b, RowC(BS5T)), R("1/2")) /\ REq(Ones(BS5T.bh), R(1))
       /\ (\A k \in 1..4 : REq(RSum([i \in 1..8 |-> RMul(BS5T.b[i], RPow(RowC(BS5T)[i], k))]), RDiv(R(1), R(k+1))))
       /\ (\A k \in 1..3 : REq(RSum([i \in 1..8 |-> RMul(BS5T.bh[i], RPow(RowC(BS5T)[i], k))]), RDiv(R(1), R(k+1))))

(* ---- error control (Hairer, Norsett & Wanner) -------------------------- *)
Mod(z) == RSqrt(RAdd(RMul(z[1], z[1]), RMul(z[2], z[2])), 80)
\* mean square of one component, err scaled by tol*(1 + max(|u|,|v|)); nm the number of modes
MeanSq(tol, err, u, v, nm) == RDiv(RSum([h \in 1..Len(err) |->
      LET sc == RMul(tol, RAdd(R(1), RMax(Mod(u[h]), Mod(v[h]))))
          e == err[h] IN RRound(RDiv(RAdd(RMul(e[1], e[1]), RMul(e[2], e[2])), RMul(sc, sc)), 200)]), R(nm))
RECURSIVE MaxOver(_, _)
MaxOver(s, k) == IF k = 0 THEN R(0) ELSE RMax(s[k], MaxOver(s, k - 1))
\* square of the estimate
Est2(tol, err, u, v, nm) == LET s == TLCEval([c \in 1..Len(err) |-> MeanSq(tol, err[c], u[c], v[c], nm)]) IN MaxOver(s, Len(s))
\* is fac the factor min(facmax, max(1/100, 4/5 est^(-1/5)))?   (est2 = est^2, so (fac/0.8)^10 est2 = 1)
FacOk(fac, est2, facmax, rel) ==
   LET lo == R("1/100")
       p(f) == RMul(RPow(RDiv(f, R("4/5")), 10), est2)     \* < 1 iff f below the ideal factor
   IN \/ RLe(RAbs(RSub(fac, facmax)), rel) /\ RLe(p(facmax), RAdd(R(1), RMul(R(10), rel)))
      \/ RLe(RAbs(RSub(fac, lo)), rel)     /\ RLe(RSub(R(1), RMul(R(10), rel)), p(lo))
      \/ RLe(RSub(lo, rel), fac) /\ RLe(fac, RAdd(facmax, rel)) /\ RLe(RAbs(RSub(p(fac), R(1))), RMul(R(20), rel))
=============================================================================
