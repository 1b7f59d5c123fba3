------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* The channel solvers: Chebyshev in the wall-normal direction x in        *)
(* [-1,1], Fourier in the two others.  A scalar field is a sequence, over  *)
(* the Fourier modes (in the order of module Fourier, for a mesh           *)
(* <<1,n1,n2>>), of its wall-normal coefficients; a vector field is <<wall *)
(* normal, streamwise, spanwise>>.  Coefficients are those of              *)
(*    D  phi_k = T_k - T_k+2                             (zero at walls)   *)
(*    B  psi_k = T_k - 2(k+2)/(k+3) T_k+2 + (k+1)/(k+3) T_k+4              *)
(*                                         (and zero slope)                *)
(*    T  T_k                                                               *)
(*    R  D with its last two coefficients those of (T_0 -+ T_1)/2, that is  *)
(*       the values at x = -1 and x = 1 (temperature)                      *)
(* The inner product is the Gauss quadrature of the mesh, 2/pi times.      *)
(* c is the configuration: n (wall-normal points), g (Fourier grid), quad, *)
(* form, mask, nu, dt, scheme.                                             *)
(***************************************************************************)
EXTENDS Flow

Mat(a, m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> a[i][j]])])
MatMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval(TLin(A[i], B))])
MatLin(s, A, t, B) == TLCEval(TLin(<<s, t>>, <<A, B>>))
Apply(A, v) == TLCEval([i \in 1..Len(A) |-> TLin(A[i], v)])
\* the part of coefficient sequence a that basis functions exist for
First(a, m) == SubSeq(a, 1, m)

\* Chebyshev coefficients of the basis functions, one column each
Dyadic(x) == TLCEval(TRound(x, 140))     \* keeps the arithmetic short; far below the tolerance
PDir(n) == TLCEval([m \in 1..n |-> TLCEval([k \in 1..n-2 |-> IF m = k THEN R(1) ELSE IF m = k + 2 THEN R(-1) ELSE R(0)])])
PBih(n) == Dyadic([m \in 1..n |-> TLCEval([k \in 1..n-4 |-> IF m = k THEN R(1)
              ELSE IF m = k + 2 THEN RDiv(R(-2 * (k + 1)), R(k + 2)) ELSE IF m = k + 4 THEN RDiv(R(k), R(k + 2)) ELSE R(0)])])
PChe(n) == TLCEval([m \in 1..n |-> TLCEval([k \in 1..n |-> IF m = k THEN R(1) ELSE R(0)])])
PTem(n) == LET d == PDir(n) h(m, s) == IF m = 1 THEN R("1/2") ELSE IF m = 2 THEN RMul(s, R("1/2")) ELSE R(0) IN
           TLCEval([m \in 1..n |-> TLCEval([k \in 1..n |-> IF k <= n - 2 THEN d[m][k] ELSE h(m, IF k = n THEN R(1) ELSE R(-1))])])
Transpose(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
\* T_p' = sum over m < p, p + m odd, of 2p T_m (p for m = 0)
DMat(n) == TLCEval([m \in 1..n |-> TLCEval([p \in 1..n |->
              IF p > m /\ (p + m) % 2 = 1 THEN (IF m = 1 THEN R(p - 1) ELSE R(2 * (p - 1))) ELSE R(0)])])
\* discrete norms of T_0..T_n-1 (2/pi times)
Norms(n, quad) == TLCEval([m \in 1..n |-> IF m = 1 \/ (m = n /\ quad = "GL") THEN R(2) ELSE R(1)])
Scaled(h, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> RMul(h[i], A[i][j])])])
\* T_m at the points, one row per point, and the weights of the points
Angle(n, quad, j) == IF quad = "GC" THEN RDiv(RMul(Pi, R(2*j - 1)), R(2*n)) ELSE RDiv(RMul(Pi, R(j - 1)), R(n - 1))
\* cos(m t) by angle reduction: the angle is q*pi/p with q taken modulo 2p
CosPi(q, p) == LET r0 == q % (2*p)
                   r == IF r0 > p THEN 2*p - r0 ELSE r0 IN
               IF 2*r <= p THEN Round(Cos(Round(RDiv(RMul(Pi, R(r)), R(p))))) ELSE RNeg(Round(Cos(Round(RDiv(RMul(Pi, R(p - r)), R(p))))))
TAt(n, quad) == LET p == IF quad = "GC" THEN 2*n ELSE n - 1
                    cs == TLCEval([r \in 1..2*p |-> CosPi(r - 1, p)]) IN
   TLCEval([j \in 1..n |-> TLCEval([m \in 1..n |->
       LET q == IF quad = "GC" THEN (m - 1) * (2*j - 1) ELSE (m - 1) * (j - 1) IN cs[(q % (2*p)) + 1]])])
Weights(n, quad) == Dyadic([j \in 1..n |-> IF quad = "GC" THEN RDiv(R(2), R(n))
                        ELSE IF j = 1 \/ j = n THEN RDiv(R(1), R(n - 1)) ELSE RDiv(R(2), R(n - 1))])

(* Everything that depends on the mesh only.  Products are taken on p points: under the 3/2-rule *)
(* the wall-normal direction is padded too.  kept is the number of coefficients a factor keeps:   *)
(* under the 2/3-rule the upper third of those of the basis it is expanded in is dropped.         *)
Tables(n, quad, dealias) ==
   LET pd == PDir(n) pb == PBih(n) pr == PTem(n) h == Norms(n, quad) p == IF dealias = "3/2-rule" THEN (3*n) \div 2 ELSE n
       tv == Mat(TAt(p, quad), p, n) w == Weights(p, quad)
       keep == IF dealias = "2/3-rule" THEN (2*n) \div 3 ELSE n
       d1 == DMat(n) d2 == MatMul(d1, d1) d4 == MatMul(d2, d2)
       wd == Transpose(Scaled(h, pd)) wb == Transpose(Scaled(h, pb)) wt == Transpose(Scaled(h, PChe(n)))
       md == MatMul(wd, pd)
       pt == Transpose(Scaled(w, tv))          \* (T_m, values at the points)
       sd == MatMul(Transpose(pd), pt)         \* (phi_m, values)
       sbp == MatMul(Transpose(pb), pt)        \* (psi_m, values)
   IN [ n |-> n, p |-> p, keep |-> keep, pd |-> pd, pb |-> pb, d1 |-> d1, d2 |-> d2, d4 |-> d4, wd |-> wd, wb |-> wb, wt |-> wt,
        tv |-> tv, w |-> w, sd |-> sd, md |-> md,
        fd |-> RSolve(md, sd, 160),                       \* values at the points -> D
        vd |-> MatMul(tv, pd), vb |-> MatMul(tv, pb),     \* and back
        tn |-> Mat(TAt(n, quad), n, n),                   \* the values of T_m at the points of the mesh itself
        qd |-> MatMul(Transpose(pd), Transpose(Scaled(Weights(n, quad), TAt(n, quad)))),   \* (phi_m, values on the mesh)
        pr |-> pr, vr |-> MatMul(tv, pr), br |-> MatMul(wb, pr), fb |-> RSolve(MatMul(wb, pb), sbp, 160),
        bb |-> MatMul(wb, pb), ab |-> MatMul(wb, MatMul(d2, pb)), sb |-> MatMul(wb, MatMul(d4, pb)),
        bd |-> MatMul(wb, pd), cb |-> MatMul(wb, MatMul(d1, pd)),
        ad |-> MatMul(wd, MatMul(d2, pd)), cd |-> MatMul(wd, MatMul(d1, pb)),
        pdd |-> RSolve(md, MatMul(wd, MatMul(d1, pd)), 160) ]   \* derivative of D projected onto D

\* Chebyshev coefficients, from D or B
FromD(T, f) == TLCEval([h \in 1..Len(f) |-> Apply(T.pd, First(f[h], T.n - 2))])
FromB(T, f) == TLCEval([h \in 1..Len(f) |-> Apply(T.pb, First(f[h], T.n - 4))])
\* wall-normal derivative of Chebyshev coefficients
Dx(T, f) == TLCEval([h \in 1..Len(f) |-> Apply(T.d1, f[h])])
\* i k_d times f, d = 2 or 3
Dk(kk, d, f) == TLCEval([h \in 1..Len(f) |-> LET k == kk[h][d] IN TLCEval([m \in 1..Len(f[h]) |-> CScale(k, MulI(f[h][m]))])])
LinF(s, f, t, g) == TLCEval(TLin(<<s, t>>, <<f, g>>))
PlusF(f, g) == LinF(R(1), f, R(1), g)
MinusF(f, g) == LinF(R(1), f, R(-1), g)
NegF(f) == TLCEval(TLin(<<R(-1)>>, <<f>>))
\* values at the wall-normal points of coefficients in the basis whose values at the points are A;
\* per point the Fourier coefficients
AtPoints(T, A, f) == LET m == IF Len(A[1]) < T.keep THEN Len(A[1]) ELSE T.keep
                         B == Mat(A, T.p, m) IN
   TLCEval([j \in 1..T.p |-> TLCEval([h \in 1..Len(f) |-> TLin(B[j], First(f[h], m))])])
\* and back, with a matrix that takes the values at the points
FromPoints(A, v) == LET nh == Len(v[1]) IN
   TLCEval([h \in 1..nh |-> Apply(A, [j \in 1..Len(v) |-> v[j][h]])])

\* velocity in Chebyshev coefficients; w is "B" when the wall-normal component is in B
Cheb(c, T, u) == TLCEval(<< IF c.wall = "B" THEN FromB(T, u[1]) ELSE FromD(T, u[1]), FromD(T, u[2]), FromD(T, u[3]) >>)
ChCurl(T, kk, u) == TLCEval(<< MinusF(Dk(kk, 2, u[3]), Dk(kk, 3, u[2])),
                        MinusF(Dk(kk, 3, u[1]), Dx(T, u[3])),
                        MinusF(Dx(T, u[2]), Dk(kk, 2, u[1])) >>)
ChDiv(T, kk, u) == PlusF(Dx(T, u[1]), PlusF(Dk(kk, 2, u[2]), Dk(kk, 3, u[3])))

(* ---- convection: coefficients in D of minus the convective term ---------- *)
\* products are taken point by point in x, by (padded) convolution in the periodic directions;
\* every factor is a field in one of the bases, evaluated at the points
At(j, ps) == Dyadic([i \in 1..Len(ps) |-> ps[i][j]])
OverPoints(T, F(_), ncomp) == LET v == TLCEval([j \in 1..T.p |-> F(j)]) IN
   TLCEval([i \in 1..ncomp |-> Dyadic([j \in 1..T.p |-> v[j][i]])])
PtsU(c, T, u) == << AtPoints(T, IF c.wall = "B" THEN T.vb ELSE T.vd, u[1]), AtPoints(T, T.vd, u[2]), AtPoints(T, T.vd, u[3]) >>
\* the coefficients in D of Chebyshev coefficients of a function that vanishes at the walls
IntoD(T, f) == TLCEval([h \in 1..Len(f) |-> RSolve(T.md, Apply(T.wd, f[h]), 160)])
Wall(c, T, u) == IF c.wall = "B" THEN FromB(T, u[1]) ELSE FromD(T, u[1])
PMinus(a, b) == TLCEval([j \in 1..Len(a) |-> FSub(a[j], b[j])])
PtsCurl(c, T, kk, u) ==
   LET dv == AtPoints(T, T.tv, Dx(T, FromD(T, u[2]))) dw == AtPoints(T, T.tv, Dx(T, FromD(T, u[3])))
       up == PtsU(c, T, u)
       \* the wall-normal velocity in these: expanded in its own basis, or (coupled solvers) the whole in T
       u1 == IF c.wall = "B" THEN up[1] ELSE AtPoints(T, T.tv, FromD(T, u[1]))
       dk(d, a) == TLCEval([j \in 1..Len(a) |-> Deriv(kk, d, a[j])]) IN
   << PMinus(dk(2, up[3]), dk(3, up[2])), PMinus(dk(3, u1), dw), PMinus(dv, dk(2, u1)) >>
ConvVortex(c, T, kk, u) == LET g == c.g pu == PtsU(c, T, u) pw == PtsCurl(c, T, kk, u)
      F(j) == CrossProd(g, At(j, pu), At(j, pw))
      r == OverPoints(T, F, 3) IN TLCEval([i \in 1..3 |-> FromPoints(T.fd, r[i])])
ConvStandard(c, T, kk, u) == LET g == c.g pu == PtsU(c, T, u)
      \* du/dx is projected onto D (exact when it vanishes at the walls), the others are Chebyshev series
      dx == << AtPoints(T, T.vd, IntoD(T, Dx(T, Wall(c, T, u)))),
               AtPoints(T, T.tv, Dx(T, FromD(T, u[2]))), AtPoints(T, T.tv, Dx(T, FromD(T, u[3]))) >>
      F(j) == LET a == At(j, pu) b == At(j, dx) s == Sp(g, a) IN
              TLCEval([i \in 1..3 |-> FNeg(FAdd(Prod(g, s[1], Dense(g, b[i])),
                  FAdd(Prod(g, s[2], Dense(g, Deriv(kk, 2, a[i]))), Prod(g, s[3], Dense(g, Deriv(kk, 3, a[i]))))))])
      r == OverPoints(T, F, 3) IN TLCEval([i \in 1..3 |-> FromPoints(T.fd, r[i])])
\* the products projected onto D, then differentiated (the wall-normal derivative projected again)
ConvDivergence(c, T, kk, u) == LET g == c.g pu == PtsU(c, T, u)
      F(j) == LET a == At(j, pu) s == Sp(g, a) d == De(g, a) IN
              << Prod(g, s[1], d[1]), Prod(g, s[1], d[2]), Prod(g, s[1], d[3]),
                 Prod(g, s[2], d[2]), Prod(g, s[2], d[3]), Prod(g, s[3], d[3]) >>
      r == OverPoints(T, F, 6)
      q == TLCEval([i \in 1..6 |-> FromPoints(T.fd, r[i])])
      at == <<1, 2, 3, 2, 4, 5, 3, 5, 6>>                  \* u_i u_j is product at[3(i-1)+j]
      Q(i, j) == q[at[3*(i - 1) + j]]
      DD(f) == TLCEval([h \in 1..Len(f) |-> Apply(T.pdd, f[h])]) IN
   TLCEval([i \in 1..3 |-> NegF(PlusF(DD(Q(i, 1)), PlusF(Dk(kk, 2, Q(i, 2)), Dk(kk, 3, Q(i, 3)))))])
\* u in the coefficients of the solver
ChConv(c, T, kk, u) == CASE c.form = "Vortex" -> ConvVortex(c, T, kk, u)
                         [] c.form = "Standard" -> ConvStandard(c, T, kk, u)
                         [] c.form = "Divergence" -> ConvDivergence(c, T, kk, u)
                         [] c.form = "Skew" -> LET a == ConvStandard(c, T, kk, u) b == ConvDivergence(c, T, kk, u) IN
                               TLCEval([i \in 1..3 |-> LinF(R("1/2"), a[i], R("1/2"), b[i])])
NoNyquist(c, f) == IF ~ c.mask THEN f
   ELSE LET ms == Modes(c.g.n) IN TLCEval([h \in 1..Len(f) |->
            IF OnNyquist(c.g.n, ms[h]) THEN TLCEval([m \in 1..Len(f[h]) |-> C0]) ELSE f[h]])

(* ---- fields on the mesh ---------------------------------------------------- *)
\* values on the mesh, per wall-normal point, of Chebyshev coefficients
OnMesh(c, T, f) == LET v == TLCEval([j \in 1..T.n |-> Dyadic([h \in 1..Len(f) |-> TLin(T.tn[j], f[h])])]) IN
                   TLCEval([j \in 1..T.n |-> ToPhysicalBy(c.g.n, c.roots, v[j])])
\* and on the padded mesh, of Fourier coefficients per point
OnPadded(c, v) == LET p == Pad(c.g)
      f(a) == TLCEval([h \in 1..Size(p) |-> Coef(c.g, a, Mode(p, h))]) IN
   TLCEval([j \in 1..Len(v) |-> ToPhysicalBy(p, c.proots, Dyadic(f(v[j])))])
GetVelocity(c, T, u) == LET w == Cheb(c, T, u) IN TLCEval([i \in 1..3 |-> OnMesh(c, T, w[i])])
GetCurl(c, T, kk, u) == LET w == PtsCurl(c, T, kk, u) IN TLCEval([i \in 1..3 |-> OnPadded(c, w[i])])
Divergence(c, T, kk, u) == LET d == ChDiv(T, kk, Cheb(c, T, u)) IN
   IF c.wall = "B" THEN d ELSE FromD(T, NoNyquist(c, IntoD(T, d)))
GetDivergence(c, T, kk, u) == << OnMesh(c, T, Divergence(c, T, kk, u)) >>
\* du_i/dx_j, row by row
GetGradient(c, T, kk, u) == LET w == Cheb(c, T, u) IN
   TLCEval([q \in 1..9 |-> LET i == (q - 1) \div 3 + 1 j == ((q - 1) % 3) + 1 IN
             OnMesh(c, T, IF j = 1 THEN Dx(T, w[i]) ELSE Dk(kk, j, w[i]))])

(* ---- one implicit stage of the wall-normal velocity and vorticity form --- *)
\* Over a time tau with the convection h (three components in D, zero on masked modes) already
\* multiplied by its weights so that it acts over tau; s is (phi_n, source) of the mean mode.
\* b is (psi_n, buoyancy), empty without buoyancy
WallVel(c, T, k2, tau, u, h, k, b0) ==
   LET nt == RMul(c.nu, RDiv(tau, R(2)))
       \* (psi, lap - nt lap^2) and (psi, lap + nt lap^2)
       M(sgn) == Dyadic(TLin(<< RMul(sgn, nt), RSub(R(1), RMul(sgn, RMul(R(2), RMul(nt, k2)))),
                                 RSub(RMul(sgn, RMul(nt, RMul(k2, k2))), k2) >>, << T.sb, T.ab, T.bb >>))
       h0 == Apply(T.bd, h[1]) h1 == Apply(T.cb, h[2]) h2 == Apply(T.cb, h[3])
       h00 == IF b0 = << >> THEN h0 ELSE TLCEval([m \in 1..T.n-4 |-> CAdd(h0[m], b0[m])])
       f == TLCEval([m \in 1..T.n-4 |-> CSub(CScale(RNeg(k2), h00[m]),
               MulI(CAdd(CScale(k[2], h1[m]), CScale(k[3], h2[m]))))])
       b == Dyadic(TLin(<<R(1), tau>>, << Apply(M(R(1)), First(u, T.n - 4)), f >>))
   IN RSolve(M(R(-1)), b, 130)
Helm(c, T, k2, tau, g, f) ==        \* (2/nu/tau)(g1 - g) = lap(g1 + g) + (2/nu) f, all tested with phi
   LET al == RRound(RDiv(R(2), RMul(c.nu, tau)), 140)
       lhs == MatLin(RAdd(al, k2), T.md, R(-1), T.ad)
       rhs == MatLin(RSub(al, k2), T.md, R(1), T.ad)
       b == Dyadic(TLin(<<R(1), RDiv(R(2), c.nu)>>, << Apply(rhs, First(g, T.n - 2)), f >>))
   IN RSolve(lhs, b, 130)
\* the components of a velocity in D of one mode from its wall-normal velocity (B) and vorticity (D):
\* continuity and the definition of the vorticity
Recover(T, k, k2, u, g) ==
   LET fd == RSolve(T.md, Apply(T.cd, u), 130)            \* du/dx, which vanishes at the walls: exact in D
       M(s, a, t, b) == Dyadic([m \in 1..T.n-2 |-> CScale(RDiv(R(1), k2),
                            MulI(CAdd(CScale(RMul(s, a), fd[m]), CScale(RMul(t, b), g[m]))))])
   \* i k2 v + i k3 w = -f,   i k2 w - i k3 v = g
   IN << M(R(1), k[2], R(1), k[3]), M(R(1), k[3], R(-1), k[2]) >>
\* s: the source of the mean streamwise momentum tested with phi
StageMode(c, T, k, tau, u, g, h, s, b0) ==
   LET k2 == RAdd(RMul(k[2], k[2]), RMul(k[3], k[3])) IN
   IF REq(k2, R(0))
   THEN [ u |-> << TLCEval([m \in 1..T.n-4 |-> C0]),
                   Helm(c, T, R(0), tau, u[2], TLCEval(TLin(<<R(1), R(-1)>>, << Apply(T.md, h[2]), s >>))),
                   Helm(c, T, R(0), tau, u[3], Apply(T.md, h[3])) >>,
          g |-> TLCEval([m \in 1..T.n-2 |-> C0]) ]
   ELSE LET hg == TLCEval([m \in 1..T.n-2 |-> MulI(CSub(CScale(k[2], h[3][m]), CScale(k[3], h[2][m])))])
            u1 == WallVel(c, T, k2, tau, u[1], h, k, b0)
            g1 == Helm(c, T, k2, tau, g, Apply(T.md, hg))
            vw == Recover(T, k, k2, u1, g1)
        IN [ u |-> << u1, vw[1], vw[2] >>, g |-> g1 ]
\* buoyancy: a field in R, or empty
Stage(c, T, kk, tau, u, g, h, s, buoyancy) ==
   LET r == TLCEval([m \in 1..Len(kk) |-> StageMode(c, T, kk[m], tau, << u[1][m], u[2][m], u[3][m] >>, g[m],
                                             << h[1][m], h[2][m], h[3][m] >>, s,
                                             IF buoyancy = << >> THEN << >> ELSE Apply(T.br, buoyancy[m]))]) IN
   [ u |-> TLCEval([i \in 1..3 |-> TLCEval([m \in 1..Len(kk) |-> r[m].u[i]])]), g |-> TLCEval([m \in 1..Len(kk) |-> r[m].g]) ]

(* ---- one implicit stage of the coupled form: velocity and pressure together *)
\* Unknowns of one mode: u (wall-normal), v/i, w/i in D and p in T.  Momentum tested with phi,
\* continuity with T.  The mean mode has no pressure constant and no T_n-1: two rows say so.
CoupledMode(c, T, k, tau, u, h, s) ==
   LET k2 == RAdd(RMul(k[2], k[2]), RMul(k[3], k[3])) mean == REq(k2, R(0))
       al == RRound(RDiv(R(2), RMul(c.nu, tau)), 140) be == RRound(RDiv(R(2), c.nu), 140)
       m == T.n - 2
       L == MatLin(RAdd(al, k2), T.md, R(-1), T.ad)
       rm == MatLin(RSub(al, k2), T.md, R(1), T.ad)
       gp == MatMul(T.wd, T.d1) bp == T.wd                  \* (phi, p'), (phi, p)
       dc == MatMul(T.d1, T.pd)                             \* Chebyshev coefficients of u'
       Entry(r, q) == LET br == (r - 1) \div m bq == (q - 1) \div m rr == r - br * m qq == q - bq * m IN
          IF r <= 3*m
          THEN IF q <= 3*m THEN (IF br = bq THEN L[rr][qq] ELSE R(0))
               ELSE LET z == q - 3*m IN RMul(be, IF br = 0 THEN gp[rr][z] ELSE RMul(k[br + 1], bp[rr][z]))
          ELSE LET z == r - 3*m IN
               IF mean /\ z \in {1, T.n} THEN (IF q = r THEN R(1) ELSE R(0))
               ELSE IF q > 3*m THEN R(0)
               ELSE IF bq = 0 THEN dc[z][qq] ELSE RNeg(RMul(k[bq + 1], T.pd[z][qq]))
       A == Dyadic([r \in 1..3*m+T.n |-> [q \in 1..3*m+T.n |-> Entry(r, q)]])
       mom(i) == LET f == Apply(T.md, h[i]) IN
          TLCEval(TLin(<< R(1), be, IF mean /\ i = 2 THEN RNeg(be) ELSE R(0) >>, << Apply(rm, First(u[i], m)), f, s >>))
       divI(x) == TLCEval([j \in 1..Len(x) |-> CScale(R(-1), MulI(x[j]))])
       b == Dyadic(mom(1) \o divI(mom(2)) \o divI(mom(3)) \o [j \in 1..T.n |-> C0])
       x == RSolve(A, b, 130)
       mulI(y) == TLCEval([j \in 1..Len(y) |-> MulI(y[j])])
   IN [ u |-> << IF mean THEN [j \in 1..m |-> C0] ELSE SubSeq(x, 1, m), mulI(SubSeq(x, m + 1, 2*m)), mulI(SubSeq(x, 2*m + 1, 3*m)) >>,
        \* the solvers keep the impulse of the pressure over the stage, per time step
        p |-> TLCEval(TLin(<<RDiv(tau, c.dt)>>, <<SubSeq(x, 3*m + 1, 3*m + T.n)>>)) ]
CStage(c, T, kk, tau, u, h, s) ==
   LET r == TLCEval([m \in 1..Len(kk) |-> CoupledMode(c, T, kk[m], tau, << u[1][m], u[2][m], u[3][m] >>, << h[1][m], h[2][m], h[3][m] >>, s)]) IN
   [ u |-> TLCEval([i \in 1..3 |-> TLCEval([m \in 1..Len(kk) |-> r[m].u[i]])]), g |-> << >>, p |-> TLCEval([m \in 1..Len(kk) |-> r[m].p]) ]

\* wall-normal vorticity of a velocity (in D)
WallVort(T, kk, u) == TLCEval([m \in 1..Len(kk) |-> TLCEval([l \in 1..T.n-2 |->
                          MulI(CSub(CScale(kk[m][2], u[3][m][l]), CScale(kk[m][3], u[2][m][l])))])])
H(c, T, kk, u) == LET r == ChConv(c, T, kk, u) IN TLCEval([i \in 1..3 |-> NoNyquist(c, r[i])])
Vort(c, T, kk, u) == IF c.wall = "B" THEN WallVort(T, kk, u) ELSE << >>
AnyStage(c, T, kk, tau, st, h, s) == IF c.wall = "B" THEN Stage(c, T, kk, tau, st.u, st.g, h, s, << >>) ELSE CStage(c, T, kk, tau, st.u, h, s)
Weighted(a, h, b, h0) == Dyadic(TLin(<<a, b>>, <<h, h0>>))

\* two-step scheme: convection 3/2 H(u) - 1/2 H(previous u); upp is the previous velocity
StepAB(c, T, kk, u, upp, s) == LET h == Weighted(R("3/2"), H(c, T, kk, u), R("-1/2"), H(c, T, kk, upp)) IN
   AnyStage(c, T, kk, c.dt, [u |-> u, g |-> Vort(c, T, kk, u)], h, s)
\* three stages with explicit weights a on this stage's and b on the previous stage's convection
RKa == << R("8/15"), R("5/12"), R("3/4") >>
RKb == << R(0), R("-17/60"), R("-5/12") >>
RECURSIVE RKStage(_, _, _, _, _, _, _)
RKStage(c, T, kk, j, st, h0, s) ==
   IF j > 3 THEN st
   ELSE LET w == RAdd(RKa[j], RKb[j]) tau == RRound(RMul(w, c.dt), 140) h == H(c, T, kk, st.u)
            hh == IF j = 1 THEN h ELSE Weighted(RDiv(RKa[j], w), h, RDiv(RKb[j], w), h0)
        IN RKStage(c, T, kk, j + 1, AnyStage(c, T, kk, tau, st, hh, s), h, s)
StepRK3(c, T, kk, u, s) == RKStage(c, T, kk, 1, [u |-> u, g |-> Vort(c, T, kk, u)], << >>, s)

(* ---- temperature (Rayleigh-Benard) -------------------------------------- *)
FromR(T, f) == TLCEval([m \in 1..Len(f) |-> Apply(T.pr, f[m])])
\* (phi_n, div(u T)): the flux in the wall-normal direction, which has no value and no slope at the
\* walls, is expanded in B, the others in D
DivFlux(c, T, kk, u, p) == LET g == c.g pu == PtsU(c, T, u) pt == AtPoints(T, T.vr, p)
      F(j) == LET a == Sparse(g, Dyadic(pt[j])) IN TLCEval([i \in 1..3 |-> Prod(g, a, Dense(g, Dyadic(pu[i][j])))])
      r == OverPoints(T, F, 3)
      f1 == FromPoints(T.fb, r[1]) f2 == FromPoints(T.fd, r[2]) f3 == FromPoints(T.fd, r[3])
      lat == PlusF(Dk(kk, 2, f2), Dk(kk, 3, f3)) IN
   TLCEval([m \in 1..Len(kk) |-> TLCEval(TLin(<<R(1), R(1)>>, << Apply(T.cd, First(f1[m], T.n - 4)), Apply(T.md, lat[m]) >>))])
\* (phi_n, u . grad T)
Advection(c, T, kk, u, p) == LET g == c.g pu == PtsU(c, T, u)
      tx == AtPoints(T, T.tv, Dx(T, FromR(T, p)))
      td == AtPoints(T, T.vd, TLCEval([m \in 1..Len(p) |-> First(p[m], T.n - 2)]))
      \* the wall values live in the mean mode only
      F(j) == LET a == TLCEval([i \in 1..3 |-> Sparse(g, Dyadic(pu[i][j]))]) t == Dyadic(td[j]) IN
              << FAdd(Prod(g, a[1], Dense(g, Dyadic(tx[j]))), FAdd(Prod(g, a[2], Dense(g, Deriv(kk, 2, t))), Prod(g, a[3], Dense(g, Deriv(kk, 3, t))))) >>
      r == OverPoints(T, F, 1) f == FromPoints(T.fd, r[1]) IN
   TLCEval([m \in 1..Len(kk) |-> Apply(T.md, f[m])])
\* one implicit stage with the flux (tested, over the stage); the wall values stay
TempStage(c, T, kk, tau, p, flux) == LET cc == [nu |-> c.kappa] IN
   TLCEval([m \in 1..Len(kk) |-> LET k == kk[m] k2 == RAdd(RMul(k[2], k[2]), RMul(k[3], k[3])) IN
      Helm(cc, T, k2, tau, p[m], TLCEval(TLin(<<R(-1)>>, <<flux[m]>>))) \o SubSeq(p[m], T.n - 1, T.n)])
\* two-step scheme: extrapolated temperature, carried by the present velocity, and its buoyancy
StepRBAB(c, T, kk, u, upp, p, ppp, s) ==
   LET h == Weighted(R("3/2"), H(c, T, kk, u), R("-1/2"), H(c, T, kk, upp)) pab == Weighted(R("3/2"), p, R("-1/2"), ppp)
       st == Stage(c, T, kk, c.dt, u, WallVort(T, kk, u), h, s, pab)
   IN [u |-> st.u, g |-> st.g, p |-> TempStage(c, T, kk, c.dt, p, NoNyquist(c, DivFlux(c, T, kk, u, pab)))]
\* three stages: buoyancy of the temperature a stage starts from, flux weighted as the convection
RECURSIVE RBStage(_, _, _, _, _, _, _, _)
RBStage(c, T, kk, j, st, h0, n0, s) ==
   IF j > 3 THEN st
   ELSE LET w == RAdd(RKa[j], RKb[j]) tau == RRound(RMul(w, c.dt), 140) h == H(c, T, kk, st.u)
            n == NoNyquist(c, Advection(c, T, kk, st.u, st.p))
            hh == IF j = 1 THEN h ELSE Weighted(RDiv(RKa[j], w), h, RDiv(RKb[j], w), h0)
            nn == IF j = 1 THEN n ELSE Weighted(RDiv(RKa[j], w), n, RDiv(RKb[j], w), n0)
            r == Stage(c, T, kk, tau, st.u, st.g, hh, s, st.p)
        IN RBStage(c, T, kk, j + 1, [u |-> r.u, g |-> r.g, p |-> TempStage(c, T, kk, tau, st.p, nn)], h, n, s)
StepRBRK3(c, T, kk, u, p, s) == RBStage(c, T, kk, 1, [u |-> u, g |-> WallVort(T, kk, u), p |-> p], << >>, << >>, s)

(* ---- the pressure of the wall-normal velocity and vorticity form --------- *)
\* What is left of the momentum balance, in Chebyshev coefficients: the convection of u, the diffusion of
\* the mean of u and the earlier u0, less the rate of change
Balance(c, T, kk, u, u0) ==
   LET um == Cheb(c, T, TLCEval([i \in 1..3 |-> LinF(R("1/2"), u[i], R("1/2"), u0[i])]))
       ut == Cheb(c, T, TLCEval([i \in 1..3 |-> LinF(RDiv(R(1), c.dt), u[i], RNeg(RDiv(R(1), c.dt)), u0[i])]))
       h == ChConv(c, T, kk, u)
       lap(f) == PlusF(Dx(T, Dx(T, f)), PlusF(Dk(kk, 2, Dk(kk, 2, f)), Dk(kk, 3, Dk(kk, 3, f)))) IN
   TLCEval([i \in 1..3 |-> PlusF(FromD(T, h[i]), LinF(c.nu, lap(um[i]), R(-1), ut[i]))])
\* coefficients, all but the first, of the function whose derivative has coefficients r
Integrated(n, r) == TLCEval([m \in 1..n |-> IF m = 1 THEN C0
     ELSE CScale(RDiv(R(1), R(2*(m - 1))), CSub(CScale(IF m = 2 THEN R(2) ELSE R(1), r[m - 1]), IF m + 1 <= n - 1 THEN r[m + 1] ELSE C0))])
\* The gradient of the pressure balances: in the wall-normal direction everywhere, in the tangential plane
\* for what is constant in x.  Its mean is left open.
PressureModes(c, T, kk, u, u0) == LET b == Balance(c, T, kk, u, u0) IN
   TLCEval([m \in 1..Len(kk) |->
      LET k2 == RAdd(RMul(kk[m][2], kk[m][2]), RMul(kk[m][3], kk[m][3])) p == Integrated(T.n, b[1][m]) IN
      IF REq(k2, R(0)) THEN p
      ELSE [p EXCEPT ![1] = CScale(RDiv(R(-1), k2), MulI(CAdd(CScale(kk[m][2], b[2][m][1]), CScale(kk[m][3], b[3][m][1]))))]])
\* with the vortex form of the convection the kinetic energy is taken off
GetPressure(c, T, kk, u, u0) ==
   LET p == OnMesh(c, T, PressureModes(c, T, kk, u, u0))
       um == GetVelocity(c, T, TLCEval([i \in 1..3 |-> LinF(R("1/2"), u[i], R("1/2"), u0[i])])) IN
   IF c.form # "Vortex" THEN p
   ELSE TLCEval([j \in 1..Len(p) |-> TLCEval([q \in 1..Len(p[j]) |->
           RSub(p[j][q], RMul(R("1/2"), RAdd(RMul(um[1][j][q], um[1][j][q]), RAdd(RMul(um[2][j][q], um[2][j][q]), RMul(um[3][j][q], um[3][j][q])))))])])

=============================================================================
