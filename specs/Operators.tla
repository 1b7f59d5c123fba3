------------------------------ MODULE Operators ------------------------------
(***************************************************************************)
(* The wall-normal operator products.  Every product acts on the columns   *)
(* of an array along one of its axes: it is recorded column by column, with *)
(* the coefficients and inputs of the column and what was returned.        *)
(*  Helmholtz  alfa (phi, lap phi) + beta (phi, phi)          basis D      *)
(*  Biharmonic a0 (psi, d4 psi) + alfa (psi, d2 psi) + beta (psi, psi)  B  *)
(*  Derivative Chebyshev coefficients of the derivative of two D fields    *)
(*  Divergence (chi_k, du/dx + i m v + i n w), k = 1..n-3, u, v, w in D,    *)
(*             chi_k = T_k - (k/(k+2))^2 T_k+2                             *)
(* (., .) is the Gauss-Chebyshev quadrature on the n points.               *)
(***************************************************************************)
EXTENDS Channel, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
PNeu(n) == Dyadic([m \in 1..n |-> TLCEval([k \in 1..n-3 |-> IF m = k + 1 THEN R(1)
              ELSE IF m = k + 3 THEN RNeg(RDiv(R(k*k), R((k+2)*(k+2)))) ELSE R(0)])])
\* the Galerkin matrices, 2/pi times
Mats(n, quad) ==
   LET pd == PDir(n) pb == PBih(n) h == Norms(n, quad) d1 == DMat(n) d2 == MatMul(d1, d1)
       wd == Transpose(Scaled(h, pd)) wb == Transpose(Scaled(h, pb)) wn == Transpose(Scaled(h, PNeu(n)))
   IN [ n |-> n, pd |-> pd, d1 |-> d1, md |-> MatMul(wd, pd), ad |-> MatMul(wd, MatMul(d2, pd)),
        bb |-> MatMul(wb, pb), ab |-> MatMul(wb, MatMul(d2, pb)), sb |-> MatMul(wb, MatMul(MatMul(d2, d2), pb)),
        nd |-> MatMul(wn, pd), cn |-> MatMul(wn, MatMul(d1, pd)) ]
HalfPi == TLCEval(Round(RDiv(Pi, R(2))))
C(z) == << R(z[1]), R(z[2]) >>
Times(s, v) == TLCEval([i \in 1..Len(v) |-> CScale(s, v[i])])
Plus(v, w) == TLCEval([i \in 1..Len(v) |-> CAdd(v[i], w[i])])
ITimes(s, v) == TLCEval([i \in 1..Len(v) |-> CScale(s, MulI(v[i]))])
Zeros(k) == [i \in 1..k |-> C0]
\* what the product returns for a column q of an operator
Product(name, M, q, x) ==
   LET n == M.n m == Len(x.v) v == First(x.v, n - (IF name = "Biharmonic" THEN 4 ELSE 2)) IN
   CASE name = "Helmholtz" -> Times(HalfPi, Plus(Times(R(q.alfa), Apply(M.ad, v)), Times(R(q.beta), Apply(M.md, v)))) \o Zeros(m - (n - 2))
     [] name = "Biharmonic" -> Times(HalfPi, Plus(Times(R(q.a0), Apply(M.sb, v)), Plus(Times(R(q.alfa), Apply(M.ab, v)), Times(R(q.beta), Apply(M.bb, v))))) \o Zeros(m - (n - 4))
     [] name = "Derivative" -> Apply(M.d1, Apply(M.pd, v)) \o Apply(M.d1, Apply(M.pd, First(x.w, n - 2)))
     [] name = "Divergence" -> Times(HalfPi, Plus(Apply(M.cn, First(x.u, n - 2)),
                                   Plus(ITimes(R(q.m), Apply(M.nd, v)), ITimes(R(q.n), Apply(M.nd, First(x.w, n - 2))))))
VARIABLES sc, pos, bad
vars == << sc, pos, bad >>
Size1(M, name) == IF name = "Biharmonic" THEN RMul(R(M.n), RMul(R(M.n), R(M.n))) ELSE R(M.n)
ColBad(s, e, M, q) ==
   LET x == TLCEval([k \in DOMAIN q.x |-> RArr(q.x[k])]) out == TLCEval(RArr(q.out)) w == TLCEval(Product(e.name, M, q, x)) IN
   IF /\ TShape(w, out) /\ RLe(TDist(w, out), RMul(R(Traces[s].cfg.tol), RAdd(R(1), TMax(w)))) THEN {} ELSE {"value-of-" \o e.name}
CallBad(s, e) == LET M == TLCEval(Mats(e.n, e.quad)) IN
   (UNION { ColBad(s, e, M, e.cols[i]) : i \in 1..Len(e.cols) }) \cup (IF e.untouched THEN {} ELSE {"input-of-" \o e.name})
Init == sc \in 1..Len(Traces) /\ pos = 0 /\ bad = {}
Next == /\ pos < Len(Traces[sc].events)
        /\ pos' = pos + 1 /\ UNCHANGED sc
        /\ LET e == Traces[sc].events[pos + 1] IN
           bad' = IF e.op = "product" THEN CallBad(sc, e) ELSE {"raised-" \o e.what}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ PrintT("MISMATCH " \o ToString(<< sc, pos, bad >>))
=============================================================================
