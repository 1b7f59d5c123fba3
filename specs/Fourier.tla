------------------------------ MODULE Fourier ------------------------------
(***************************************************************************)
(* The discrete Fourier calculus of a pseudo-spectral solver, stated with  *)
(* exact arithmetic and without any transform: a real periodic field is    *)
(* its finite list of Fourier coefficients, differentiation multiplies by  *)
(* i*k, and the product of two fields sampled on P points per direction is *)
(* the convolution of their coefficients with wave numbers counted modulo  *)
(* P (that is what aliasing is).                                           *)
(*                                                                         *)
(* A grid g is a record                                                    *)
(*   n      <<n1,n2,n3>> mesh size; two-dimensional problems have n2 = 1   *)
(*   ks     <<s1,s2,s3>> 2*pi/L, the scaling of integer wave numbers       *)
(*   dealias "3/2-rule" | "2/3-rule" | "None"                              *)
(* A field is a sequence of complex numbers <<re,im>> over the half        *)
(* spectrum k3 >= 0 in C order of (k1,k2,k3), k1 and k2 in FFT order.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Rat

Pi == R("3.14159265358979323846264338327950288419716939937510582")
C0 == <<R("0"), R("0")>>
Conj(z) == <<z[1], RNeg(z[2])>>
MulI(z) == <<RNeg(z[2]), z[1]>>                 \* i*z
AbsI(k) == IF k < 0 THEN -k ELSE k

Wn(j, n)   == IF 2*j < n THEN j ELSE j - n      \* FFT order, Nyquist is -n/2
Half(n)    == n[3] \div 2 + 1
Size(n)    == n[1] * n[2] * Half(n)
HIdx(n, k) == ((k[1] % n[1]) * n[2] + (k[2] % n[2])) * Half(n) + k[3] + 1
Mode(n, h) == LET q == h - 1 IN
              << Wn(q \div (Half(n) * n[2]), n[1]), Wn((q \div Half(n)) % n[2], n[2]), q % Half(n) >>
Modes(n)   == TLCEval([h \in 1..Size(n) |-> Mode(n, h)])
Neg(k)     == << -k[1], -k[2], -k[3] >>

OnNyquist(n, k) == \E i \in 1..3 : n[i] % 2 = 0 /\ 2 * AbsI(k[i]) = n[i]
Resolved(n, k)  == \A i \in 1..3 : 2 * AbsI(k[i]) < n[i]

\* scaled wave vector and its square
Ks(g, k) == << RMul(R(k[1]), g.ks[1]), RMul(R(k[2]), g.ks[2]), RMul(R(k[3]), g.ks[3]) >>
K2(kk)   == RAdd(RAdd(RMul(kk[1], kk[1]), RMul(kk[2], kk[2])), RMul(kk[3], kk[3]))
K2n(kk)  == LET q == K2(kk) IN IF REq(q, R(0)) THEN R(1) ELSE q      \* never divides by zero
KsAll(g) == TLCEval([h \in 1..Size(g.n) |-> Ks(g, Mode(g.n, h))])

Zero(n) == TLCEval([h \in 1..Size(n) |-> C0])
FAdd(a, b) == TLCEval([h \in 1..Len(a) |-> CAdd(a[h], b[h])])
FSub(a, b) == TLCEval([h \in 1..Len(a) |-> CSub(a[h], b[h])])
FScale(s, a) == TLCEval([h \in 1..Len(a) |-> CScale(s, a[h])])
FNeg(a) == FScale(R(-1), a)
\* d/dx_i
Deriv(kk, i, a) == TLCEval([h \in 1..Len(a) |-> CScale(kk[h][i], MulI(a[h]))])
Curl(kk, u) == TLCEval(<< FSub(Deriv(kk, 2, u[3]), Deriv(kk, 3, u[2])),
                  FSub(Deriv(kk, 3, u[1]), Deriv(kk, 1, u[3])),
                  FSub(Deriv(kk, 1, u[2]), Deriv(kk, 2, u[1])) >>)
Div(kk, u) == FAdd(Deriv(kk, 1, u[1]), FAdd(Deriv(kk, 2, u[2]), Deriv(kk, 3, u[3])))

(* ---- products --------------------------------------------------------- *)
\* the modes a factor of a product keeps: the 2/3-rule zeroes |k| >= n/3
Kept(g, k) == /\ Resolved(g.n, k)
              /\ g.dealias = "2/3-rule" => \A i \in 1..3 : g.n[i] = 1 \/ AbsI(k[i]) < g.n[i] \div 3
\* the number of points the product is sampled on
Pad(g) == IF g.dealias = "3/2-rule" THEN << (3*g.n[1]) \div 2, (3*g.n[2]) \div 2, (3*g.n[3]) \div 2 >> ELSE g.n
PIdx(p, k1, k2, k3) == ((k1 % p[1]) * p[2] + (k2 % p[2])) * p[3] + (k3 % p[3]) + 1
Coef(g, f, k) == IF ~ Kept(g, k) THEN C0
                 ELSE IF k[3] >= 0 THEN f[HIdx(g.n, k)] ELSE Conj(f[HIdx(g.n, Neg(k))])
\* all coefficients on the integers modulo p
Dense(g, f) == LET p == Pad(g) IN
   TLCEval([m \in 1..p[1]*p[2]*p[3] |-> LET q == m - 1 IN
      Coef(g, f, << Wn(q \div (p[3]*p[2]), p[1]), Wn((q \div p[3]) % p[2], p[2]), Wn(q % p[3], p[3]) >>)])
IsC0(z) == REq(z[1], R(0)) /\ REq(z[2], R(0))
\* the same as a list of <<k1,k2,k3,coefficient>> without the zeros
Sparse(g, f) == LET p == Pad(g) d == Dense(g, f) IN
   TLCEval(SelectSeq([m \in 1..p[1]*p[2]*p[3] |-> LET q == m - 1 IN
      << Wn(q \div (p[3]*p[2]), p[1]), Wn((q \div p[3]) % p[2], p[2]), Wn(q % p[3], p[3]), d[m] >>],
      LAMBDA e : ~ IsC0(e[4])))
\* coefficients of the sampled product of a (sparse) and b (dense)
Prod(g, a, b) == LET p == Pad(g) ms == Modes(g.n) IN
   TLCEval([h \in 1..Size(g.n) |->
      CSum([j \in 1..Len(a) |-> CMul(a[j][4], b[PIdx(p, ms[h][1] - a[j][1], ms[h][2] - a[j][2], ms[h][3] - a[j][3])])])])

(* ---- evaluation on the physical grid ----------------------------------- *)
Round(x) == RRound(x, 110)
\* sine and cosine by their power series (|x| <= 7: 60 terms leave less than 1e-30)
RECURSIVE Ser(_, _, _, _)
Ser(x2, k, t, left) == IF left = 0 THEN R(0)
   ELSE RAdd(t, Ser(x2, k + 2, Round(RDiv(RNeg(RMul(t, x2)), R(k * (k + 1)))), left - 1))
Cos(x) == Ser(RMul(x, x), 1, R(1), 34)
Sin(x) == Ser(RMul(x, x), 2, x, 34)
Roots(n) == TLCEval([j \in 1..n |-> LET x == RDiv(RMul(RMul(R(2), Pi), R(j-1)), R(n)) IN << Round(Cos(x)), Round(Sin(x)) >>])

\* values of the field on the n1*n2*n3 mesh (C order): sum over the full spectrum,
\* one direction after the other
MeshRoots(n) == TLCEval(<< Roots(n[1]), Roots(n[2]), Roots(n[3]) >>)
ToPhysicalBy(n, roots, f) ==
   LET r1 == roots[1] r2 == roots[2] r3 == roots[3]
       hn == Half(n)
       \* along direction 1
       s1 == TLCEval([m \in 1..Size(n) |-> LET q == m - 1 j == q \div (hn*n[2]) rest == q % (hn*n[2]) IN
                CSum([k \in 1..n[1] |-> CMul(f[(k-1)*hn*n[2] + rest + 1], r1[(((k-1)*j) % n[1]) + 1])])])
       s2 == TLCEval([m \in 1..Size(n) |-> LET q == m - 1 i == q \div (hn*n[2]) j == (q \div hn) % n[2] l == q % hn IN
                CSum([k \in 1..n[2] |-> CMul(s1[(i*n[2] + k - 1)*hn + l + 1], r2[(((k-1)*j) % n[2]) + 1])])])
   IN TLCEval([m \in 1..n[1]*n[2]*n[3] |-> LET q == m - 1 ij == q \div n[3] j == q % n[3] IN
        RSum([k \in 1..hn |-> LET z == CMul(s2[ij*hn + k], r3[(((k-1)*j) % n[3]) + 1]) IN
                IF k = 1 \/ 2*(k-1) = n[3] THEN z[1] ELSE RMul(R(2), z[1])])])
ToPhysical(n, f) == ToPhysicalBy(n, MeshRoots(n), f)

(* ---- comparison -------------------------------------------------------- *)
FMax(a) == CMaxAbs(a)
=============================================================================
