-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The periodic solvers: what one evaluation of the right-hand side and    *)
(* one time step of each of them is.  Fields are coefficient sequences     *)
(* (see Fourier).  c is the configuration record:                          *)
(*   solver  "NS" | "VV" | "MHD" | "NS2D" | "Bq2D"                         *)
(*   g       grid          form  convection form        mask  BOOLEAN      *)
(* and m the physical parameters (nu, eta, Ri, Pr).  Two-dimensional       *)
(* problems live in the (1,3) plane of a mesh with n2 = 1.                 *)
(***************************************************************************)
EXTENDS Fourier

\* the zero field of the same size
Zero2(a) == TLCEval([h \in 1..Len(a) |-> C0])

Masked(c, f) == IF ~ c.mask THEN f
   ELSE LET ms == Modes(c.g.n) IN TLCEval([h \in 1..Len(f) |-> IF OnNyquist(c.g.n, ms[h]) THEN C0 ELSE f[h]])
MaskAll(c, fs) == TLCEval([i \in 1..Len(fs) |-> Masked(c, fs[i])])

Sp(g, fs) == TLCEval([i \in 1..Len(fs) |-> Sparse(g, fs[i])])
De(g, fs) == TLCEval([i \in 1..Len(fs) |-> Dense(g, fs[i])])

\* products of vector fields: a x b, a_i b_j
CrossProd(g, a, b) == LET s == Sp(g, a) d == De(g, b) IN TLCEval(
   << FSub(Prod(g, s[2], d[3]), Prod(g, s[3], d[2])),
      FSub(Prod(g, s[3], d[1]), Prod(g, s[1], d[3])),
      FSub(Prod(g, s[1], d[2]), Prod(g, s[2], d[1])) >>)
Outer(g, a, b) == LET s == Sp(g, a) d == De(g, b) IN
   TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Prod(g, s[i], d[j])])])

\* sum_j d/dx_j t[i][j]
DivT(kk, t) == TLCEval([i \in 1..3 |-> FAdd(Deriv(kk, 1, t[i][1]), FAdd(Deriv(kk, 2, t[i][2]), Deriv(kk, 3, t[i][3])))])
\* u_j d u_i / dx_j
Advect(g, kk, u, v) == LET s == Sp(g, u) IN TLCEval([i \in 1..3 |->
      LET P(j) == Prod(g, s[j], Dense(g, Deriv(kk, j, v[i]))) IN FAdd(P(1), FAdd(P(2), P(3)))])

Convection(g, kk, form, u) ==
   CASE form = "Vortex"     -> CrossProd(g, u, Curl(kk, u))
     [] form = "Standard"   -> LET a == Advect(g, kk, u, u) IN TLCEval([i \in 1..3 |-> FNeg(a[i])])
     [] form = "Divergence" -> LET a == DivT(kk, Outer(g, u, u)) IN TLCEval([i \in 1..3 |-> FNeg(a[i])])
     [] form = "Skewed"     -> LET a == Advect(g, kk, u, u) b == DivT(kk, Outer(g, u, u)) IN
                               TLCEval([i \in 1..3 |-> FScale(R("-1/2"), FAdd(a[i], b[i]))])

\* the pressure-like potential of f: sum_i f_i k_i / k^2; subtracting its gradient projects
Potential(kk, f) == TLCEval([h \in 1..Len(kk) |-> CScale(RDiv(R(1), K2n(kk[h])),
      CSum(<< CScale(kk[h][1], f[1][h]), CScale(kk[h][2], f[2][h]), CScale(kk[h][3], f[3][h]) >>))])
Project(kk, f, q) == TLCEval([i \in 1..3 |-> TLCEval([h \in 1..Len(kk) |-> CSub(f[i][h], CScale(kk[h][i], q[h]))])])
Diffuse(kk, nu, f, u) == TLCEval([h \in 1..Len(kk) |-> CSub(f[h], CScale(RMul(nu, K2(kk[h])), u[h]))])
BiotSavart(kk, w) == LET v == Curl(kk, w) IN
   TLCEval([i \in 1..3 |-> TLCEval([h \in 1..Len(kk) |-> CScale(RDiv(R(1), K2n(kk[h])), v[i][h])])])

AddAll(a, b) == IF b = << >> THEN a ELSE TLCEval([i \in 1..Len(a) |-> FAdd(a[i], b[i])])

(* Each returns [out |-> tendency of every component, p |-> pressure potential] *)
NSRhs(c, m, u, src) == LET g == c.g kk == KsAll(g)
      f == MaskAll(c, Convection(g, kk, c.form, u))
      q == Potential(kk, f)
      r == Project(kk, f, q) IN
   [ out |-> AddAll(TLCEval([i \in 1..3 |-> Diffuse(kk, m.nu, r[i], u[i])]), src), p |-> q ]

VVRhs(c, m, w, src) == LET g == c.g kk == KsAll(g)
      f == MaskAll(c, Curl(kk, CrossProd(g, BiotSavart(kk, w), w))) IN
   [ out |-> AddAll(TLCEval([i \in 1..3 |-> Diffuse(kk, m.nu, f[i], w[i])]), src), p |-> << >> ]

MHDRhs(c, m, ub) == LET g == c.g kk == KsAll(g)
      u == SubSeq(ub, 1, 3) b == SubSeq(ub, 4, 6)
      uu == Outer(g, u, u) bb == Outer(g, b, b) bu == Outer(g, b, u)
      \* momentum flux uu - bb, induction flux b_i u_j - u_i b_j
      tm == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> FSub(uu[i][j], bb[i][j])])])
      ti == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> FSub(bu[i][j], bu[j][i])])])
      dm == DivT(kk, tm) di == DivT(kk, ti)
      fm == MaskAll(c, TLCEval([i \in 1..3 |-> FNeg(dm[i])]))
      fi == MaskAll(c, TLCEval([i \in 1..3 |-> FNeg(di[i])]))
      q  == Potential(kk, fm)
      r  == Project(kk, fm, q) IN
   [ out |-> TLCEval([i \in 1..6 |-> IF i <= 3 THEN Diffuse(kk, m.nu, r[i], u[i]) ELSE Diffuse(kk, m.eta, fi[i-3], b[i-3])]), p |-> q ]

\* velocity (u1,u3) and density rho; gravity along the second direction of the problem (3 here)
BqRhs(c, m, ur) == LET g == c.g kk == KsAll(g)
      z == Zero2(ur[1])
      u == << ur[1], z, ur[2] >> rho == ur[3]
      f0 == MaskAll(c, CrossProd(g, u, Curl(kk, u)))
      f == << f0[1], z, FSub(f0[3], FScale(m.Ri, rho)) >>
      q == Potential(kk, f)
      r == Project(kk, f, q)
      s == Sp(g, u) d == Dense(g, rho)
      flux == FAdd(Deriv(kk, 1, Prod(g, s[1], d)), Deriv(kk, 3, Prod(g, s[3], d))) IN
   [ out |-> << Diffuse(kk, m.nu, r[1], u[1]), Diffuse(kk, m.nu, r[3], u[3]),
                Diffuse(kk, RDiv(m.nu, m.Pr), Masked(c, FNeg(flux)), rho) >>, p |-> q ]

NS2DRhs(c, m, u, src) == LET v == << u[1], Zero2(u[1]), u[2] >>
      s == IF src = << >> THEN << >> ELSE << src[1], Zero2(u[1]), src[2] >>
      r == NSRhs([c EXCEPT !.form = "Vortex"], m, v, s) IN [ out |-> << r.out[1], r.out[3] >>, p |-> r.p ]

Rhs(c, m, u, src) == CASE c.solver = "NS" -> NSRhs(c, m, u, src)
                       [] c.solver = "VV" -> VVRhs(c, m, u, src)
                       [] c.solver = "MHD" -> MHDRhs(c, m, u)
                       [] c.solver = "NS2D" -> NS2DRhs(c, m, u, src)
                       [] c.solver = "Bq2D" -> BqRhs(c, m, u)

(* ---- derived fields, all on the physical mesh -------------------------- *)
\* velocity components of the current solution in the three directions of the mesh
Velocity(c, u) == LET kk == KsAll(c.g) IN
   CASE c.solver = "VV" -> BiotSavart(kk, u)
     [] c.solver \in {"NS2D", "Bq2D"} -> << u[1], Zero2(u[1]), u[2] >>
     [] OTHER -> SubSeq(u, 1, 3)
Used(c) == IF c.solver \in {"NS2D", "Bq2D"} THEN <<1, 3>> ELSE <<1, 2, 3>>

(* ---- time steps --------------------------------------------------------- *)
Axpy(a, x, y) == TLCEval([i \in 1..Len(x) |-> TLCEval([h \in 1..Len(x[i]) |->
                   LET z == CAdd(CScale(a, x[i][h]), y[i][h]) IN << RRound(z[1], 120), RRound(z[2], 120) >>])])
StepRK4(F(_), dt, u) ==
   LET k1 == F(u)
       k2 == F(Axpy(RDiv(dt, R(2)), k1, u))
       k3 == F(Axpy(RDiv(dt, R(2)), k2, u))
       k4 == F(Axpy(dt, k3, u))
   IN Axpy(RDiv(dt, R(6)), k1, Axpy(RDiv(dt, R(3)), k2, Axpy(RDiv(dt, R(3)), k3, Axpy(RDiv(dt, R(6)), k4, u))))
StepEuler(F(_), dt, u) == Axpy(dt, F(u), u)
\* v is the solution one step before u (or << >> on the first step of a run)
StepAB2(F(_), dt, u, v) == IF v = << >> THEN StepEuler(F, dt, u)
   ELSE Axpy(RMul(R("3/2"), dt), F(u), Axpy(RMul(R("-1/2"), dt), F(v), u))
=============================================================================
