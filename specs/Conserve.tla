------------------------------ MODULE Conserve ------------------------------
(***************************************************************************)
(* What the dynamics of the periodic solvers conserves, stated on the      *)
(* tendency r of a state u: rates are inner products of u (or its curl)    *)
(* with r, and equal what viscosity and buoyancy alone do.                 *)
(***************************************************************************)
EXTENDS Flow

Mult(n, k) == IF k[3] = 0 \/ 2 * k[3] = n[3] THEN R(1) ELSE R(2)
\* real inner product of two vector fields over the whole spectrum, with a weight per mode
Inner(c, w, a, b) == LET ms == Modes(c.g.n) IN
   RSum(TLCEval([i \in 1..Len(a) |-> RDot(w, TLCEval([h \in 1..Len(a[i]) |->
        RMul(Mult(c.g.n, ms[h]), RAdd(RMul(a[i][h][1], b[i][h][1]), RMul(a[i][h][2], b[i][h][2])))]))]))
One(kk) == TLCEval([h \in 1..Len(kk) |-> R(1)])
Square(kk) == TLCEval([h \in 1..Len(kk) |-> K2(kk[h])])
Abs1(a) == TLCEval([i \in 1..Len(a) |-> TLCEval([h \in 1..Len(a[i]) |-> << RAbs(a[i][h][1]), RAbs(a[i][h][2]) >>])])
\* a + b is zero, relative to the size of its terms
Bal(c, tol, w, a, b, extra, size) ==
   RLe(RAbs(RAdd(Inner(c, w, a, b), extra)), RMul(tol, RAdd(size, Inner(c, w, Abs1(a), Abs1(b)))))
Slots(c, u) == CASE c.solver \in {"NS2D", "Bq2D"} -> << u[1], Zero2(u[1]), u[2] >> [] OTHER -> SubSeq(u, 1, 3)
DivFree(kk, u, tol) == LET d == Div(kk, u) m == RMax(TMax(u[1]), RMax(TMax(u[2]), TMax(u[3])))
                           big == TMax(kk) IN RLe(TMax(d), RMul(tol, RMul(R(4), RMul(big, RAdd(m, RPow(R("1/2"), 60))))))
MeanZero(u, tol, size) == \A i \in 1..Len(u) : CClose(u[i][1], C0, RMul(tol, RAdd(R(1), size)))
\* rate(a, b, damping): inner product of a with tendency b equals -damping
Rate(c, kk, tol, a, r, nu, u) ==
   LET d == RMul(nu, Inner(c, Square(kk), a, u)) IN Bal(c, tol, One(kk), a, r, d, RMul(nu, Inner(c, Square(kk), Abs1(a), Abs1(u))))
\* exact, or (recorded data) kept short
Bio(c, kk, w) == LET v == BiotSavart(kk, w) IN IF c.exact THEN v ELSE TLCEval(TRound(v, 160))
Broken(c, m, u, r, tol) ==
   LET kk == KsAll(c.g) v == Slots(c, u) q == Slots(c, r) size == TMax(r) IN
   CASE c.solver \in {"NS", "NS2D"} ->
          LET w == Curl(kk, v) IN
          (IF Rate(c, kk, tol, v, q, m.nu, v) THEN {} ELSE {"energy"})
          \cup (IF c.solver = "NS2D" THEN (IF Rate(c, kk, tol, w, Curl(kk, q), m.nu, w) THEN {} ELSE {"enstrophy"})
                ELSE (IF Rate(c, kk, tol, w, q, m.nu, v) THEN {} ELSE {"helicity"}))
          \cup (IF MeanZero(q, tol, size) THEN {} ELSE {"momentum"})
          \cup (IF DivFree(kk, q, tol) THEN {} ELSE {"solenoidal-rhs"})
     [] c.solver = "VV" ->
          LET x == Bio(c, kk, v) IN
          (IF Rate(c, kk, tol, Bio(c, kk, x), q, m.nu, v) THEN {} ELSE {"energy"})
          \cup (IF Rate(c, kk, tol, x, q, m.nu, v) THEN {} ELSE {"helicity"})
          \cup (IF MeanZero(q, tol, size) THEN {} ELSE {"momentum"})
          \cup (IF DivFree(kk, q, tol) THEN {} ELSE {"solenoidal-rhs"})
     [] c.solver = "MHD" ->
          LET b == SubSeq(u, 4, 6) rb == SubSeq(r, 4, 6)
              d == RAdd(RMul(m.nu, Inner(c, Square(kk), v, v)), RMul(m.eta, Inner(c, Square(kk), b, b)))
              x == RMul(RAdd(m.nu, m.eta), Inner(c, Square(kk), v, b)) IN
          (IF Bal(c, tol, One(kk), u, r, d, d) THEN {} ELSE {"energy"})
          \cup (IF Bal(c, tol, One(kk), b \o v, r, x, RMul(RAdd(m.nu, m.eta), Inner(c, Square(kk), Abs1(v), Abs1(b)))) THEN {} ELSE {"cross-helicity"})
          \cup (IF MeanZero(r, tol, size) THEN {} ELSE {"momentum"})
          \cup (IF DivFree(kk, q, tol) /\ DivFree(kk, rb, tol) THEN {} ELSE {"solenoidal-rhs"})
     [] c.solver = "Bq2D" ->
          LET d == RAdd(RMul(m.nu, Inner(c, Square(kk), v, v)), RMul(m.Ri, Inner(c, One(kk), << u[2] >>, << u[3] >>)))
              s == RAdd(RMul(m.nu, Inner(c, Square(kk), v, v)), RMul(RAbs(m.Ri), Inner(c, One(kk), Abs1(<< u[2] >>), Abs1(<< u[3] >>)))) IN
          (IF Bal(c, tol, One(kk), v, q, d, s) THEN {} ELSE {"energy"})
          \cup (IF Rate(c, kk, tol, << u[3] >>, << r[3] >>, RDiv(m.nu, m.Pr), << u[3] >>) THEN {} ELSE {"density-variance"})
          \cup (IF MeanZero(<< r[1], r[3], TLCEval(<< CAdd(r[2][1], CScale(m.Ri, u[3][1])) >>) >>, tol, size) THEN {} ELSE {"momentum"})
          \cup (IF LET qq == << q[1], q[2], TLCEval([h \in 1..Len(q[3]) |-> IF h = 1 THEN C0 ELSE q[3][h]]) >> IN DivFree(kk, qq, tol) THEN {} ELSE {"solenoidal-rhs"})
\* a spectral field on the half spectrum is that of a real field
RealField(n, f, tol) == LET ms == Modes(n) IN
   \A h \in 1..Len(f) : LET k == ms[h] IN
      k[3] = 0 => CClose(f[h], Conj(f[HIdx(n, << -k[1], -k[2], 0 >>)]), tol)
Solenoidal(c, u, tol) == LET kk == KsAll(c.g) IN
   /\ DivFree(kk, Slots(c, u), tol)
   /\ c.solver = "MHD" => DivFree(kk, SubSeq(u, 4, 6), tol)
Energy(c, u) == LET kk == KsAll(c.g) IN
   CASE c.solver = "VV" -> LET v == Bio(c, kk, u) IN Inner(c, One(kk), v, v)
     [] c.solver = "Bq2D" -> Inner(c, One(kk), << u[3] >>, << u[3] >>)
     [] OTHER -> Inner(c, One(kk), u, u)
=============================================================================
